"""append the 'fixed:' lines of /repo's fix commits to known_findings.txt: fixed.py (C01) 'subject' ..."""
import subprocess, sys, os, re
root=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
path=os.path.join(root,"known_findings.txt")
text=open(path).read() if os.path.exists(path) else "# finding: property=<id> id=<finding> <what fails>   (recorded, not repaired)\n# fixed: property=<id> <commit> <what failed>        (repaired in /repo; suppresses nothing)\n"
prop=sys.argv[1]
log=subprocess.check_output(["git","-C","/repo","log","--reverse","--format=%h %s"],universal_newlines=True).splitlines()
for l in log:
    h,s=l.split(" ",1)
    if s.startswith("fix: ") and h not in text:
        text+="fixed: property=%s %s %s\n"%(prop,h,s[5:])
open(path,"w").write(text)
