import json,sys
for p in sys.argv[1:]:
    e=json.load(open('/verif/evidence/%s.json'%p)); print(p,e['tier'],'wall',e['wall_s'],'viol',e['violations'])
    for s in e['coverage']['scenarios']: print('  %-34s ex=%-9d st=%-10d states=%-8d out=%-5d depth=%-4d bound=%s%s pruned=%d passes=%d %.1fs'%(s['name'],s['executions'],s['steps'],s['states'],s['outcomes'],s['max_depth'],s['bound'],'' if s['exhaustive'] else ' NOT-EXHAUSTIVE',s['pruned'],s['passes'],s['wall']))
