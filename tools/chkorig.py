import subprocess,glob,os
for d in sorted(glob.glob('/verif/seeded/*')):
    f=None; base=None
    for l in open(d+'/patch.diff'):
        if l.startswith('--- a/'): f=l[6:].strip(); base=set(subprocess.run(['git','-C','/repo','show','fb2fc76:'+f],stdout=subprocess.PIPE,text=True).stdout.splitlines()); n=0
        elif l.startswith('-') and f: 
            n+=1
            if l[1:].rstrip('\n') not in base: print(os.path.basename(d),'NOT ORIGINAL:',l.rstrip())
    print(os.path.basename(d),'removed lines',n)
