# usage: drvtest.sh name secs src...
n=$1; s=$2; shift 2
python3-vt - "$n" "$s" "$@" <<'P'
import sys,os,tempfile,subprocess,shutil
sys.path.insert(0,'/verif')
from vc import build
n,s=sys.argv[1:3]
d=tempfile.mkdtemp()
try:
    exe=build.compile_driver(d,'/verif/drivers/'+n+'.cc',sys.argv[3:], os.environ.get('SAN','address,undefined'), tuple(os.environ.get('EXTRA','').split()))
    sc=d+'/scratch'; os.makedirs(sc)
    r=subprocess.run([exe,'1',s,sc],cwd=sc,env=dict(os.environ,ASAN_OPTIONS='exitcode=99',TSAN_OPTIONS='exitcode=97:halt_on_error=1'))
    print('exit',r.returncode)
finally: shutil.rmtree(d)
P
