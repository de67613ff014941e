import os,sys,subprocess,shutil,json
R='/tmp/scratch_repo'
def fresh():
    subprocess.run(['rm','-rf',R]); subprocess.run(['cp','-a','/repo',R],check=True)
def tests_ok():
    base=json.load(open('/opt/vp/BASELINE.json'))
    return base
def run(cmd,**k): return subprocess.run(cmd,shell=True,stdout=subprocess.PIPE,stderr=subprocess.STDOUT,text=True,**k)
