#!/usr/bin/env python3
"""mkseed.py [IDs]: write the planted bugs of tools/seeds.py to /verif/seeded (patch against /repo HEAD)."""
import os, sys, subprocess, json, shutil, difflib
sys.path.insert(0, '/verif/tools')
import seeds
pre = r'''#include <vector>
#include <string>
#include <iostream>
#include <fstream>
#include <sstream>
#include <complex>
#include <cmath>
#include <cstdio>
#include <cstring>
#include <map>
#include <list>
#include <functional>
#include <memory>
#include <chrono>
#include <Eigen/Dense>
#define protected public
#define private public
#include "teufel.h"
#undef private
#undef protected
'''
main = r'''
static int bad = 0;
static void check(bool ok, const char *what) { if (!ok) { printf("FAILED: %s\n", what); bad++; } }
static bool near(double a, double b, double rel = 1e-6) { return std::fabs(a - b) <= rel * (std::fabs(a) + std::fabs(b)); }
static bool near(Vector a, Vector b, double rel = 1e-6) { return (a - b).norm() <= rel * (a.norm() + b.norm()); }
'''
for sid, s in seeds.S.items():
    if len(sys.argv) > 1 and sid not in sys.argv[1:]:
        continue
    d = '/verif/seeded/' + sid
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    diff = ''
    for f, reps in s['edits'].items():
        t = subprocess.run(['git', '-C', '/repo', 'show', 'HEAD:' + f], capture_output=True, text=True, check=True).stdout
        n = t
        for old, new in reps:
            assert n.count(old) >= 1, (sid, 'not found', old)
            assert n.count(old) == 1, (sid, 'ambiguous', old)
            n = n.replace(old, new)
        diff += ''.join(difflib.unified_diff(t.splitlines(True), n.splitlines(True), 'a/' + f, 'b/' + f))
    open(d + '/patch.diff', 'w').write(diff)
    inc = ''.join('#include "%s"\n' % h for h in s.get('inc', ['global.h', 'vector.h', 'fields.h', 'particle.h']))
    open(d + '/demo.cpp', 'w').write(pre.replace('#include "teufel.h"\n', inc) + main + s.get('top', '') + 'int main() {\n' + s['demo'].strip('\n') + '\n  return bad ? 1 : 0;\n}\n')
    shutil.copy('/verif/tools/demo.sh', d + '/demo.sh')
    json.dump({'property': s['property'], 'needs': s['needs'], 'what_it_breaks': s['breaks']}, open(d + '/meta.json', 'w'), indent=1)
    print(sid)
