import json,os,sys
D=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
for p in sys.argv[1:]:
    e=json.load(open(f'{D}/evidence/{p}.json'))
    for k,v in e['coverage']['subchecks'].items(): print(p,k,v['evaluations'],v['distinct_nontrivial'],v['labels'])
