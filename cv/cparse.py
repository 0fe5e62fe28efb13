"""Front end: clang's AST of the real translation unit, re-read on every run."""
import json, os, re, subprocess, functools

TU='traceon/backend/traceon-backend.c'
class ParseError(Exception): pass

def load(repo):
    r=subprocess.run(['clang','-Xclang','-ast-dump=json','-fsyntax-only','-w','-DNDEBUG',os.path.join(repo,TU)],
                     capture_output=True,text=True)
    if r.returncode: raise ParseError(r.stderr[:4000])
    return Unit(json.loads(r.stdout))

# ---- types: ('double',) ('int',) ('bool',) ('void',) ('ptr',t) ('arr',t,n) ('struct',key) ('fn',)
_INTS={'int','unsigned int','long','unsigned long','short','unsigned short','char','unsigned char','signed char','size_t','uint64_t','uint8_t',
 'int64_t','uint32_t','int32_t','long long','unsigned long long','_Bool','bool','ptrdiff_t','__uint8_t','__uint64_t','ssize_t'}
class Unit:
    def __init__(self,ast):
        self.funcs={}; self.globals={}; self.structs={}; self.typedefs={}; self.enums={}; self.by_id={}
        self.struct_ids={}
        for n in ast['inner']: self._top(n)
    def _top(self,n):
        k=n['kind']
        self.by_id[n['id']]=n
        if k=='FunctionDecl':
            if any(c.get('kind')=='CompoundStmt' for c in n.get('inner',())): self.funcs[n['name']]=n
        elif k=='VarDecl': self.globals[n['name']]=n
        elif k=='RecordDecl': self._record(n)
        elif k=='EnumDecl': self._enum(n)
        elif k=='TypedefDecl': self.typedefs[n['name']]=n['type'].get('desugaredQualType',n['type']['qualType'])
    def _record(self,n):
        fields=[c for c in n.get('inner',()) if c['kind']=='FieldDecl']
        if not fields: return
        self.structs[n['id']]=fields
        if n.get('name'): self.struct_ids[n['name']]=n['id']
        loc=n.get('loc',{}); 
    def _enum(self,n):
        v=-1
        for c in n.get('inner',()):
            if c['kind']!='EnumConstantDecl': continue
            inner=c.get('inner') or []
            if inner:
                val=_find_value(inner[0])
                v=int(val)
            else: v+=1
            self.enums[c['id']]=v; self.enums[c['name']]=v
    def ftype(self,f): return self.type(f['type'])
    def type(self,tj):
        q=tj.get('desugaredQualType',tj['qualType'])
        return self.ptype(q)
    @functools.lru_cache(None)
    def ptype(self,q):
        q=q.strip()
        q=re.sub(r'struct \((?:unnamed|anonymous)[^)]*?([\w.-]+:\d+:\d+)\)',lambda m:'struct anon@'+m.group(1).replace(':','_'),q)
        q=re.sub(r'\b(const|volatile|restrict|__restrict|register|static|extern)\b',' ',q)
        q=re.sub(r'\s+',' ',q).strip(); q=re.sub(r'\(\s*(\*+)\s*\)',r'(\1)',q)
        return self._decl(q)
    def _base(self,b):
        b=b.strip()
        if b in('double','float','long double'): return ('double',)
        if b=='void': return ('void',)
        if b in _INTS: return ('int',)
        if b.startswith('enum '): return ('int',)
        if b.startswith('struct '):
            return ('struct',b[7:].strip())
        if b in self.typedefs: return self.ptype(self.typedefs[b])
        raise ParseError('type '+b)
    def _decl(self,q):
        # function types / pointers to functions
        m=re.match(r'^(.*?)\(\*+\)\s*\((.*)\)$',q)
        if m: return ('ptr',('fn',))
        if re.match(r'^[^(]*\([^*].*\)$',q) and not q.startswith('struct (') : return ('fn',)
        # T (*)[a][b] / T (*name)...
        m=re.match(r'^(.*?)\((\*+)\)((\[\d*\])+)$',q)
        if m:
            t=self._base_suffix(m.group(1))
            for d in reversed(re.findall(r'\[(\d*)\]',m.group(3))): t=('arr',t,int(d) if d else None)
            for _ in m.group(2): t=('ptr',t)
            return t
        return self._base_suffix(q)
    def _base_suffix(self,q):
        q=q.strip()
        m=re.match(r'^(.*?)((\s*\[\d*\])+)$',q)
        if m:
            t=self._base_suffix(m.group(1))
            for d in reversed(re.findall(r'\[(\d*)\]',m.group(2))): t=('arr',t,int(d) if d else None)
            return t
        if q.endswith('*'): return ('ptr',self._base_suffix(q[:-1]))
        return self._base(q)

def _find_value(n):
    if 'value' in n: return n['value']
    for c in n.get('inner',()):
        v=_find_value(c)
        if v is not None: return v
