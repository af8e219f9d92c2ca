# writes src/splines_list.rs: the instantiated (K C D) triples, closed under derivation
cfg=[("PointN<F, 1>",5,[1,2,3,5,9]),("PointN<F, 2>",7,[1,2,3,4,6,8]),("PointN<F, 3>",4,[1,2,3,5]),("PointN<F, 5>",3,[1,2]),("Probe<2>",4,[1,2,3,5]),("Probe<2>",10,[2]),("Probe<3>",2,[1,3])]
out=[]
for p in dict.fromkeys(p for p,_,_ in cfg):
    t=sorted({(q,m) for p2,d,ms in cfg if p2==p for q in range(d+1) for m in ms})
    if p.startswith("Probe"): out.append('#[cfg(feature = "probe")]')
    out.append("impl_spline!(%s; %s);"%(p," ".join("(%d %d %d)"%(m+2*q+1,m+q,q) for q,m in t)))
def lst(name,pre,doc):
    c=[(p[len(pre):-1],d,ms) for p,d,ms in cfg if p.startswith(pre)]
    out.append("/// %s"%doc)
    out.append("pub const %s: [(usize, usize, &[usize]); %d] = [%s];"%(name,len(c),", ".join("(%s, %d, &%s)"%x for x in c)))
    return c
lst("SPLINES","PointN<F, ","(dimension, largest degree, span counts) instantiated for the provided point type")
lst("PROBE_SPLINES","Probe<","the same for the instrumented point type")
for fn,ty in (("spline","PointN::<F, %s>"),("probe_spline","Probe::<%s>")):
    pre="PointN<F, " if fn=="spline" else "Probe<"
    out.append("/// Build a spline of degree `d`; None when the combination is not instantiated.")
    out.append("pub fn %s(d: usize, knots: &[F], pts: &[Co]) -> Option<Result<DynS, BSplineError>> {\n    match pts[0].len() {"%fn)
    for p in dict.fromkeys(p for p,_,_ in cfg):
        if p.startswith("Probe") and p.startswith(pre): out.append('        #[cfg(feature = "probe")]')
        if p.startswith(pre): out.append("        %s => %s::bspline(d, knots, pts),"%(p[len(pre):-1],ty%p[len(pre):-1]))
    out.append("        _ => None,\n    }\n}")
open("src/splines_list.rs","w").write("\n".join(out)+"\n")
