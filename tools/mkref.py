import sys; sys.path.insert(0,'/tmp/gen')
from refac import R, edit
import subprocess
d=sys.argv[2]; subprocess.check_call(['rm','-rf',d]); subprocess.check_call(['cp','-a','/repo',d]); edit(d,R[sys.argv[1]])
