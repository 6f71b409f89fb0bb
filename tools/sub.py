import os,sys
def sub(f,a,b,n=1):
    p=os.environ["R"]+"/src/common/"+f; s=open(p).read(); assert a in s,(f,a); open(p,"w").write(s.replace(a,b,n))
