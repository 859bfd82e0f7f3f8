import re,sys,glob,collections
def skip_ws(s,i):
    while True:
        while i<len(s) and s[i].isspace(): i+=1
        if s.startswith('//',i):
            i=s.index('\n',i)
        else: return i
def parse_str(s,i):
    m=re.match(r'(b?)r(#*)"',s[i:])
    if m:
        end='"'+m.group(2); st=i+m.end(); j=s.index(end,st)
        return s[st:j], j+len(end)
    if s[i]=='"':
        j=i+1; out=''
        while s[j]!='"':
            if s[j]=='\\':
                c=s[j+1]
                if c=='\n':
                    j+=2
                    while s[j].isspace(): j+=1
                    continue
                out+={'n':'\n','t':'\t','"':'"','\\':'\\','\'':"'",'r':'\r','0':'\0'}.get(c,'?'); j+=2
            else: out+=s[j]; j+=1
        return out,j+1
    return None
def parse_arg(s,i):
    i=skip_ws(s,i)
    r=parse_str(s,i)
    if r and s[skip_ws(s,r[1])] in ',)': return ('s',r[0]),r[1]
    m=re.match(r'expect!\s*(\[\[|\[)\s*',s[i:])
    if m:
        j=i+m.end()
        r=parse_str(s,j)
        if r:
            k=skip_ws(s,r[1])
            cl=']]' if m.group(1)=='[[' else ']'
            if s.startswith(cl,k): return ('e',r[0]),k+len(cl)
        elif s[j]==']': return ('e',''),j+(2 if m.group(1)=='[[' else 1)
    # generic expression: up to matching , or )
    d=0;j=i
    while True:
        r=parse_str(s,j) if s[j] in 'rb"' and (s[j]=='"' or re.match(r'(b?)r(#*)"',s[j:])) and not (j>0 and (s[j-1].isalnum() or s[j-1]=='_')) else None
        if r: j=r[1]; continue
        if s.startswith('//',j): j=s.index('\n',j); continue
        c=s[j]
        if c in '([{': d+=1
        elif c in ')]}':
            if d==0: break
            d-=1
        elif c==',' and d==0: break
        elif c=="'" and re.match(r"'(\\.|.)'",s[j:]): j+=len(re.match(r"'(\\.|.)'",s[j:]).group(0)); continue
        j+=1
    return ('x',s[i:j].strip()),j
def calls(s,name_re):
    for m in re.finditer(r'(?<![\w.])('+name_re+r')\(',s):
        ls=s.rfind('\n',0,m.start())+1
        if 'fn ' in s[ls:m.start()] : continue
        i=m.end();args=[]
        try:
            while True:
                i=skip_ws(s,i)
                if s[i]==')': break
                a,i=parse_arg(s,i)
                args.append(a); i=skip_ws(s,i)
                if s[i]==',': i+=1
        except Exception as ex:
            print('ERR',m.group(1),ex,file=sys.stderr); continue
        # enclosing test
        f=[x for x in re.finditer(r'fn (\w+)\(',s[:m.start()])]
        yield m.group(1),(f[-1].group(1) if f else '?'),args
if __name__=='__main__':
    c=collections.Counter()
    for p in sorted(glob.glob('**/*.rs',recursive=True)):
        s=open(p).read()
        for n,t,a in calls(s,r'check_\w+|do_\w+|assert_\w+'):
            c[n,''.join(x[0] for x in a)]+=1
    for k,v in sorted(c.items(),key=lambda x:-x[1]): print(v,k)
