import re,os,random,json,sys
SRC='/repo/src'
muts=[]
SW=['subject','predicate','object','graph']
def lines_of(p):
    s=open(p).read().split('\n')
    out=[]
    for i,l in enumerate(s):
        if re.match(r'\s*#\[cfg\(test\)\]',l): break
        out.append(l)
    return s,out
for r,d,fs in sorted(os.walk(SRC)):
    for f in sorted(fs):
        if not f.endswith('.rs') or f in('uuid.rs',): continue
        p=os.path.join(r,f); rel=os.path.relpath(p,'/repo')
        s,ls=lines_of(p)
        for i,l in enumerate(ls):
            t=l.strip()
            if not t or t.startswith(('//','#','use ','pub use','mod ','pub mod','*','/*')): continue
            code=l.split(' //')[0]
            isdecl=bool(re.match(r'(pub(\(.*?\))? )?(unsafe )?(fn|impl|struct|enum|trait|type|where|const) ?',t)) or t.endswith(',') and ':' in t and '(' not in t
            def add(new,op):
                if new!=l: muts.append((rel,i+1,op,l,new))
            def rep(pat,subs,op):
                for m in re.finditer(pat,code):
                    for sub in (subs if isinstance(subs,list) else [subs]):
                        add(l[:m.start()]+m.expand(sub)+l[m.end():],op)
            if not isdecl:
                rep(r' == ',' != ','eq'); rep(r' != ',' == ','eq')
                rep(r' < (?!\S*>)',[' <= ',' > '],'cmp'); rep(r' > ',[' >= ',' < '],'cmp'); rep(r' <= ',' < ','cmp'); rep(r' >= ',' > ','cmp')
                rep(r' && ',' || ','bool'); rep(r' \|\| ',' && ','bool')
                rep(r'\btrue\b','false','lit'); rep(r'\bfalse\b','true','lit')
                rep(r'(?<=[\s(])!(?=[a-z])','','not')
                rep(r'\bLess\b',['Greater','Equal'],'ord'); rep(r'\bGreater\b',['Less','Equal'],'ord'); rep(r'\bEqual\b',['Less'],'ord')
                rep(r' \+ 1\b',[' + 0',' + 2'],'arith'); rep(r' - 1\b',' - 0','arith'); rep(r' \+= ',' -= ','arith'); rep(r' -= ',' += ','arith')
                rep(r'(?<=[ (])0(?=[,);\s])','1','num'); rep(r'(?<=[ (])1(?=[,);\s])',['0','2'],'num')
                rep(r'\bis_some\b','is_none','opt'); rep(r'\bis_none\b','is_some','opt'); rep(r'\bis_ok\b','is_err','opt')
                rep(r'\bany\(','all(','iter'); rep(r'\ball\(','any(','iter')
                rep(r'\bSome\(([^()]*)\)(?= *[,;)]| *$)','None','opt')
                if re.match(r'(\} else )?if (?!let)',t) and t.endswith('{') :
                    m=re.match(r'(\s*(?:\} else )?if )(.*)( \{)$',l)
                    if m: add(m[1]+'true'+m[3],'if'); add(m[1]+'false'+m[3],'if')
                rep(r'\.(0|1|2|3)\b(?!\.?\d)',['.0','.1','.2','.3'],'tuple')
            for a in SW:
                for b in SW:
                    if a!=b:
                        rep(r'\b'+a+r'\b(?!\s*:)',b,'role')
                        if not isdecl: rep(a+r'(?=s\b|_|\()',b,'role2')
                        A,B=a.capitalize(),b.capitalize()
                        if not isdecl: rep(r'\bSameAs'+A+r'\b','SameAs'+B,'same')
                        rep(r'\b(Any|Given)'+A+r'\b(?!\w)',r'\1'+B,'variant')
            if not isdecl:
                for a,b in [('s','p'),('s','o'),('p','o'),('g','s'),('g','o'),('a','b'),('self','other'),('other','self')]:
                    rep(r'(?<![\w.\'&])'+a+r'(?![\w:\'])',b,'var'); rep(r'(?<![\w.\'])&'+a+r'(?![\w:\'])','&'+b,'var')
                    if a not in('self','other','a'): rep(r'(?<![\w.\'&])'+b+r'(?![\w:\'])',a,'var')
                if re.match(r'[\w.&*()?\[\], ]+;$',t) and not t.startswith(('let','return','break','continue','type','const','}')) and '(' in t:
                    add(re.match(r'\s*',l)[0]+'','del')
                elif re.match(r'[\w.]+ = .*;$',t): add('','del')
                rep(r'\.insert\(','.remove(','call'); rep(r'\.next\(\)','.next_back()','call'); rep(r'\.min\(','.max(','call')
                rep(r'\.filter\(.*?\)\)?(?=[;,.]|$)','','filter')
                rep(r"'\\u\{([0-9a-fA-F]+)\}'",["'\\u{0}'"],'char') if 0 else None
                for m in re.finditer(r"'\\(u\{([0-9a-fA-F]+)\}|x([0-9a-fA-F]{2}))'",code):
                    v=int(m[2] or m[3],16)
                    for w in (v+1,v-1):
                        if 0<=w<0x110000 and not 0xd800<=w<0xe000: add(l[:m.start()]+"'\\u{%x}'"%w+l[m.end():],'char')
seen=set(); out=[]
for m in muts:
    k=(m[0],m[1],m[4])
    if k not in seen: seen.add(k); out.append(m)
random.seed(5); random.shuffle(out)
json.dump(out,open('/tmp/mut/muts.json','w'))
from collections import Counter
print(len(out),Counter(m[2] for m in out)); print(Counter(m[0] for m in out))
