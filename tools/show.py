import json,sys
r=json.load(open(sys.argv[1])); n=int(sys.argv[2]) if len(sys.argv)>2 else 300
print(r['cases'], 'evals', r['evals'], 'wall', round(r['wall'],1), 'CURRENT '+r['current'] if r['current'] else '')
for f in r['failures']: print('##',f['fid'],'|',f['what'],'|',f['input'][:n],'|',f['detail'][-n:]); print()
