#!/usr/bin/env python3
"""Wraps every public operation of a scratch copy of the crate: `instrument.py SCRATCH` rewrites SCRATCH/repo/src and
SCRATCH/harness/src. At run time MUT=operation*1000+condition switches one conditional change on: while the condition
(conds.py) holds for the operands, the operation's answer is off by the relative amount FAC."""
import re,sys,os
from conds import C
S=sys.argv[1]
H=os.path.dirname(os.path.abspath(__file__))
R=S+'/repo/src/'
FNS={ # file: (points expr, [(fn, kind)])
'line.rs':('&[self.start,self.end]',{'eval':'P','split':'F','distance_to_point':'S','axis':'S','derivative':'P','bounding_box':'B'}),
'quadratic_bezier.rs':('&[self.start,self.ctrl,self.end]',{'eval':'P','eval_casteljau':'P','split':'F','axis':'S','dd':'S','derivative':'F','arclen':'S','distance_to_point':'S','baseline':'F','is_linear':'N','is_a_point':'N','bounding_box':'B'}),
'cubic_bezier.rs':('&[self.start,self.ctrl1,self.ctrl2,self.end]',{'eval':'P','eval_casteljau':'P','split':'F','axis':'S','dd':'S','derivative':'F','arclen':'S','distance_to_point':'S','baseline':'F','is_linear':'N','is_a_point':'N','bounding_box':'B'}),
'bezier.rs':('&self.control_points[..]',{'eval':'P','split':'F','derivative':'F','arclen':'S','distance_to_point':'S'}),
'bezier_segment.rs':('&self.all()[..]',{'eval':'P','start':'P','end':'P','is_linear':'N','baseline':'F','split':'F'}),
'bspline.rs':('&self.control_points[..]',{'eval':'R','knot_domain':'D','arclen':'S','derivative':'F'}),
}
EVALP={}
fid=0;table=[]
for f,(pts,fns) in FNS.items():
    s=open(R+f).read()
    cut=s.find('#[cfg(test)]'); head,tail=(s[:cut],s[cut:]) if cut>=0 else (s,'')
    for fn,k in fns.items():
        fid+=1; table.append((fid,f,fn,k))
        ms=[m for m in re.finditer(r'\n    pub fn '+fn+r'(<[^(]*>)?\(&self([^)]*)\)\s*->',head)]
        assert len(ms)==1,(f,fn,len(ms))
        m=ms[0]; args=m.group(2)
        i=m.end()
        # find body brace: first '{' at line end after optional where
        j=i; depth=0
        # return type may contain braces in generics ({ N - 1 }); body brace is one followed by newline
        while True:
            j=head.index('{',j)
            if head[j+1]=='\n': break
            j+=1
        sig=head[i:j]
        ret=sig.split('where')[0].strip()
        depth=0;e=j
        while True:
            if head[e]=='{':depth+=1
            elif head[e]=='}':
                depth-=1
                if depth==0:break
            e+=1
        body=head[j+1:e]
        t='Some(t.into())' if re.search(r'\bt: ',args) else 'None'
        if 't: F' in args: t='Some(<F as Into<P::Scalar>>::into(t))'
        elif t!='None': t='Some(t)'
        st='nsteps' if 'nsteps' in args else '0'
        q='None'
        mm=re.search(r'\b(p|point): P\b',args)
        if mm: q='Some(%s)'%mm.group(1)
        tol='None'
        if 'tolerance: F' in args: tol='Some(<F as Into<P::Scalar>>::into(tolerance))'
        elif 'tolerance' in args: tol='Some(tolerance)'
        kn='&self.knots[..], D' if f=='bspline.rs' else '&[], 0'
        ax='axis' if re.search(r'\baxis: usize',args) else '0'
        cond=f'crate::m::on({fid}) && crate::m::cond::<P>({pts}, {t}, {st}, {q}, {tol}, {kn}, {ax})'
        fix={'P':'__r * (1.0 + crate::m::fac())','S':'__r * (1.0 + crate::m::fac())','N':'!__r','B':'{ let mut b = __r; let l = P::DIM - 1; b[l].1 = b[l].1 + (b[l].1 - b[l].0) * crate::m::fac() + b[l].1.abs() * crate::m::fac(); b }','R':'__r.map(|p| p * (1.0 + crate::m::fac()))','D':'(__r.0, __r.0 + (__r.1 - __r.0) * (1.0 - crate::m::fac()))','F':'crate::m::Fix::fix(__r)'}[k]
        names=[x.split(':')[0].strip() for x in args.split(',') if ':' in x]
        gen=m.group(1) or ''
        tf='::<F>' if gen else ''
        full=head[m.start():j]
        wrap=full+f'{{\n        #[allow(unused)] let __hit = {cond};\n        let __r = self.{fn}__o{tf}({", ".join(names)});\n        if __hit {{ {fix} }} else {{ __r }}\n    }}'
        nb=full.replace('pub fn '+fn,'#[inline(always)] fn '+fn+'__o',1)+'{'+body+'}'
        head=head[:m.start()]+wrap+nb+head[e+1:]
    if f=='bezier_segment.rs':
        head=head.replace('    pub fn eval<F>','    fn all(&self) -> ArrayVec<[P; 4]> {\n let mut v = ArrayVec::new(); match self { BezierSegment::Linear(s) => { v.push(s.start); v.push(s.end); } BezierSegment::Quadratic(s) => v.extend(s.control_points()), BezierSegment::Cubic(s) => v.extend(s.control_points()) } v }\n    pub fn eval<F>',1)
    if f=='bspline.rs': head=head.replace('    knots: [P::Scalar; K],\n    /// Knot','    pub(crate) knots: [P::Scalar; K],\n    /// Knot').replace('    control_points: [P; C],\n}','    pub(crate) control_points: [P; C],\n}')
    if f=='bezier.rs': head=head.replace('    control_points: [P; N],\n}','    pub(crate) control_points: [P; N],\n}')
    open(R+f,'w').write(head+tail)
l=open(R+'lib.rs').read().replace('mod roots;','pub mod m;\nmod roots;')
open(R+'lib.rs','w').write(l)
open(S+'/table','w').write('\n'.join(' '.join(map(str,x)) for x in table))

s=open(H+'/m.rs').read()
s=s.replace('@@','\n'.join(f'        {i} => {e},' for i,(n,e) in enumerate(C))).replace('&NAMES','&['+','.join('"%s"'%n for n,_ in C)+']')
open(R+'m.rs','w').write(s)
p=S+'/harness/src/mon.rs'
s=open(p).read()
a='pub fn drive('
i=s.index(a); i=s.index('{\n',i)+2
s=s[:i]+"""    if let Ok(x) = std::env::var("MUT") { stroke::m::ID.store(x.parse().unwrap(), Ordering::Relaxed); }
    stroke::m::FAC.store(std::env::var("FAC").ok().and_then(|x| x.parse::<f64>().ok()).unwrap_or(1e-5).to_bits(), Ordering::Relaxed);
"""+s[i:]
i=s.rindex('    std::process::exit(code)')
s=s[:i]+"""    if std::env::var_os("MUT").is_some() { eprintln!("HITS {}", stroke::m::HITS.load(Ordering::Relaxed)); }
"""+s[i:]
open(p,'w').write(s)
