import json,sys
for f in sys.argv[1:]:
    for r in json.load(open(f)):
        print('%-40s cases=%d skip=%d checks=%d %.1fs'%(r['contract'],r['cases'],r['skipped'],r['checks'],r['wall_s']))
        for x in r['failures']: print('   FAIL',x['label'],x['msg'][:300])
        for x in r['errors'][:2]: print('   ERR',x[-500:])
