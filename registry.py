import hashlib, os
from catalog import CAT
V = os.path.dirname(os.path.abspath(__file__))
MY = ['libmy']
W = ['-Wl,--wrap=' + f for f in ('clock_gettime', 'gettimeofday', 'nanosleep', 'clock_nanosleep', 'usleep', 'fopen')]
HARNESS = {
    'codec': dict(name='codec', src=['codec.cc', 'lookup3v.c', 'my_wrap.c'], libs=MY, ld=['-Wl,--wrap=read', '-Wl,--wrap=nanosleep']),
    'cont': dict(name='cont', src=['cont.cc', 'my_wrap.c'], libs=MY),
    'sys': dict(name='sys', src=['sys.cc', 'rate2.c', 'atom.c', 'my_wrap.c'], libs=MY, ld=W),
    'argv': dict(name='argv', src=['argv.cc'], libs=MY),
    'dec': dict(name='dec', src=['dec.cc'], libs=['libmy', 'dnstable', 'shim']),
    'qry': dict(name='qry', src=['qry.cc'], libs=['libmy', 'dnstable', 'shim'], ld=['-Wl,--wrap=clock_gettime']),
    'mrg': dict(name='mrg', src=['mrg.cc'], libs=['libmy', 'dnstable', 'shim']),
    'thr': dict(name='thr', src=['thr.cc'], libs=['libmy', 'dnstable', 'shim']),
    'cli': dict(name='cli', src=['cli.cc'], libs=['libmy', 'dnstable', 'shim'], tools=True),
    'stage': dict(name='stage', src=['stage.cc', 'stage_w.c'], libs=['libmy', 'dnstable', 'shim']),
    'oom': dict(name='oom', src=['oom.cc', 'oom_w.c'], libs=['libmy', 'dnstable', 'shim'], repo_cflags=['-include', V + '/h/oom.h', '-DVF_OOM=0x' + hashlib.sha256(open(V + '/h/oom.h', 'rb').read()).hexdigest()[:12]]),
    'zone': dict(name='zone', src=['zone.cc'], libs=MY, ld=['-lldns']),
}
PROPS = {c['id']: dict(parts=c['parts'], rule=c['rule'], assume=c['assume'], floor=c['floor'], **c['kw']) for c in CAT}
