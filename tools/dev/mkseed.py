"""mkseed(id, prop, [(file, old, new)...], needs, breaks, demo_c | demo_sh=...)"""
import os,subprocess,json,sys
def sh(c,**k): return subprocess.run(c,shell=True,stdout=subprocess.PIPE,stderr=subprocess.STDOUT,text=True,**k)
DEMO='''#!/bin/bash
# exit 0 if the property holds for the case in demo.c, nonzero otherwise
d=$(cd "$(dirname "$0")" && pwd); t=$(mktemp -d) || exit 3; trap 'rm -rf "$t"' EXIT
cd "$t" && gcc -w -std=gnu99 -D_GNU_SOURCE -I/repo/include -I/repo/lib $(pkg-config --cflags glib-2.0 json-c) "$d/demo.c" -o "$t/demo" -L/repo/lib/.libs -lsatyr $(pkg-config --libs glib-2.0 json-c) -lm -Wl,-rpath,/repo/lib/.libs || exit 3
LD_LIBRARY_PATH=/repo/lib/.libs timeout 60 "$t/demo"
'''
PRE='''#include "report_type.h"
#include "location.h"
#include "utils.h"
#include "frame.h"
#include "thread.h"
#include "stacktrace.h"
#include "distance.h"
#include "normalize.h"
#include "report.h"
#include "rpm.h"
#include "operating_system.h"
#include "abrt.h"
#include "core/frame.h"
#include "core/thread.h"
#include "core/stacktrace.h"
#include "gdb/frame.h"
#include "gdb/thread.h"
#include "gdb/stacktrace.h"
#include "gdb/sharedlib.h"
#include "java/frame.h"
#include "java/thread.h"
#include "java/stacktrace.h"
#include "js/frame.h"
#include "js/platform.h"
#include "js/stacktrace.h"
#include "koops/frame.h"
#include "koops/stacktrace.h"
#include "python/frame.h"
#include "python/stacktrace.h"
#include "ruby/frame.h"
#include "ruby/stacktrace.h"
#include "cluster.h"
#include "unstrip.h"
#include <glib.h>
#include <json.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <math.h>
#define CHECK(x) do { if (!(x)) { printf("failed: %s (line %d)\\n", #x, __LINE__); return 1; } } while (0)
'''
def mkseed(id, prop, edits, needs, breaks, demo_c=None, demo_sh=None, files={}):
    d='/verif/seeded/'+id; os.makedirs(d,exist_ok=True)
    assert sh('git -C /repo status --porcelain --untracked-files=no').stdout=='' , 'dirty'
    try:
        for f,o,n in edits:
            p='/repo/'+f; s=open(p).read(); assert s.count(o)==1,(f,o,s.count(o)); open(p,'w').write(s.replace(o,n))
        diff=sh('git -C /repo diff').stdout; assert diff
        open(d+'/patch.diff','w').write(diff)
        if demo_c: open(d+'/demo.c','w').write(PRE+demo_c); open(d+'/demo.sh','w').write(DEMO)
        if demo_sh: open(d+'/demo.sh','w').write(demo_sh)
        for n,c in files.items(): open(d+'/'+n,'w').write(c)
        os.chmod(d+'/demo.sh',0o755)
        json.dump({"property":prop,"needs":needs,"what_it_breaks":breaks},open(d+'/meta.json','w'),indent=1)
        r=sh('/tmp/rt.sh'); print(id,r.stdout.strip()[-200:].replace('\n',' '))
        r=sh('bash %s/demo.sh'%d,cwd='/repo'); print('  patched demo rc',r.returncode,r.stdout.strip()[-200:]); bad=r.returncode==0
    finally:
        sh('git -C /repo checkout -- .')
    sh('bash /opt/vp/build.sh')
    r=sh('bash %s/demo.sh'%d,cwd='/repo'); print('  clean demo rc',r.returncode,r.stdout.strip()[-300:])
    if bad or r.returncode: print('  *** NOT A VALID SEED')
