import json,sys,glob
for f in glob.glob('/verif/.build/%s*/h_*.json'%sys.argv[1]):
    d=json.load(open(f))
    if len(sys.argv)>2 and sys.argv[2] not in d['harness']: continue
    print(d['harness'],d['status'],'paths',d['paths'],'assumed',d['assumed_away'],'forks',d['forks'],'insts',d['instructions'],'maxpath',d['max_path_instructions'],'q',d['queries'],'slow',d['slowest_s'],'wall',d['wall_s'],d['reached'])
    if d['what']: print(d['what'][:2500],d['values'],d['notes'])
