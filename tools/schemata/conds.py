C=[
('always','true'),
('t==0','tt(&|t| t == 0.0)'),('t==1','tt(&|t| t == 1.0)'),('t in (0,1e-3)','tt(&|t| t > 0.0 && t < 1e-3)'),('t in (0.999,1)','tt(&|t| t > 0.999 && t < 1.0)'),
('t==0.5','tt(&|t| t == 0.5)'),('t in .30-.31','tt(&|t| t > 0.3 && t < 0.31)'),('t<1e-10','tt(&|t| t > 0.0 && t < 1e-10)'),('t>1-1e-10','tt(&|t| t < 1.0 && t > 1.0 - 1e-10)'),('t dyadic 1/64','tt(&|t| t * 64.0 == ((t * 64.0) as i64) as f64 && t * 32.0 != ((t * 32.0) as i64) as f64)'),
('n>=6','n >= 6'),('n>=10','n >= 10'),('n>=18','n >= 18'),('n>=30','n >= 30'),('n>=60','n >= 60'),('n==7','n == 7'),('n==1','n == 1'),('n==2','n == 2'),
('dim==1','dim == 1'),('dim==3','dim == 3'),('dim>=4','dim >= 4'),('dim>=8','dim >= 8'),('dim>=16','dim >= 16'),('dim>=30','dim >= 30'),('axis>=3','axis >= 3'),('axis>=8','axis >= 8'),('axis last of>=3','axis >= 2 && axis == dim - 1'),
('all<0','all(&|x| x < 0.0)'),('all>0','all(&|x| x > 0.0)'),('max>1e6','mx() > 1e6'),('max>1e12','mx() > 1e12'),('max<1e-6','mx() < 1e-6 && mx() > 0.0'),('max<1e-12','mx() < 1e-12 && mx() > 0.0'),('ratio>1e9','mx() > 1e9 * mn()'),
('first==last','n > 1 && eq(0, n - 1) && n > 2 && !eq(0, 1)'),('adjacent equal','(1..n).any(|i| eq(i - 1, i)) && mx() > 0.0'),('first two equal','n > 2 && eq(0, 1)'),('last two equal','n > 2 && eq(n - 1, n - 2)'),('inner equal','n > 3 && eq(1, 2) && !eq(0, 1)'),('all equal','n > 1 && (1..n).all(|i| eq(0, i)) && mx() > 0.0'),('palindrome','n > 2 && (0..n).all(|i| eq(i, n - 1 - i)) && !eq(0, 1)'),('mid==first','n > 2 && eq(n / 2, 0)'),
('integers','n > 2 && all(&|x| x == (x as i64) as f64)'),('neg zero','any(&|x| x == 0.0 && x.is_sign_negative())'),('some zero','any(&|x| x == 0.0)'),('subnormal','any(&|x| x != 0.0 && x.abs() < 1e-300)'),
('far offset','{ let (a, b) = ext(0); a.abs().min(b.abs()) > 1e3 * (b - a) && b > a }'),('very far offset','{ let (a, b) = ext(0); a.abs().min(b.abs()) > 1e7 * (b - a) && b > a }'),
('flat axis0','n > 1 && (1..n).all(|i| x(i, 0) == x(0, 0)) && dim > 1'),('flat last axis','n > 1 && dim > 1 && (1..n).all(|i| x(i, dim - 1) == x(0, dim - 1))'),('axes equal','dim > 1 && (0..n).all(|i| x(i, 0) == x(i, 1))'),
('monotone','n > 2 && (1..n).all(|i| x(i, 0) > x(i - 1, 0))'),('decreasing','n > 2 && (1..n).all(|i| x(i, 0) < x(i - 1, 0))'),('zigzag','n > 3 && (2..n).all(|i| (x(i, 0) - x(i - 1, 0)) * (x(i - 1, 0) - x(i - 2, 0)) < 0.0)'),
('collinear','n > 2 && dim > 1 && d2(0, n - 1) > 0.0 && (0..n).all(|i| ((x(i, 0) - x(0, 0)) * (x(n - 1, 1) - x(0, 1)) - (x(i, 1) - x(0, 1)) * (x(n - 1, 0) - x(0, 0))).abs() <= 1e-12 * (mx() * mx()))'),
('nearly closed','n > 2 && d2(0, n - 1) > 0.0 && d2(0, n - 1) < 1e-8 * d2(0, 1)'),('short first leg','n > 2 && d2(0, 1) > 0.0 && d2(0, 1) < 1e-8 * d2(1, 2)'),('one far inner','n > 2 && d2(0, 1) > 1e4 * d2(0, n - 1)'),
('equidistant','n > 2 && (2..n).all(|i| (x(i, 0) - 2.0 * x(i - 1, 0) + x(i - 2, 0)).abs() <= 1e-13 * mx()) && d2(0, 1) > 0.0'),
('elevated(2nd diff equal)','n > 3 && (3..n).all(|i| (x(i, 0) - 3.0 * x(i - 1, 0) + 3.0 * x(i - 2, 0) - x(i - 3, 0)).abs() <= 1e-12 * mx()) && d2(0, 1) > 0.0'),
('steps==1','steps == 1'),('steps==2','steps == 2'),('steps==7','steps == 7'),('steps>=100','steps >= 100'),('steps>=1000','steps >= 1000'),('steps>=10000','steps >= 10000'),('steps>=65536','steps >= 65536'),('steps odd>50','steps > 50 && steps % 2 == 1'),('steps==64','steps == 64'),
('q==first','qd(0) == 0.0'),('q==last','qd(n - 1) == 0.0'),('q far','q.is_some() && qd(0) > 1e6 * mx() * mx()'),('q near start','qd(0) > 0.0 && qd(0) < 1e-6 * mx() * mx()'),('q inner ctrl','n > 2 && qd(1) == 0.0'),('q zero','q.map_or(false, |q| (0..dim).all(|k| f(q.axis(k)) == 0.0))'),('q at mid','n > 1 && q.map_or(false, |q| (0..dim).all(|k| f(q.axis(k)) == 0.5 * (x(0, k) + x(n - 1, k))))'),
('tol==0','tol.map(f).map_or(false, |t| t == 0.0)'),('tol>max','tol.map(f).map_or(false, |t| t > mx())'),('tol<1e-9','tol.map(f).map_or(false, |t| t > 0.0 && t < 1e-9)'),('tol>chord','tol.map(f).map_or(false, |t| t * t > d2(0, n - 1))'),
('knot0<0','b && kf(0) < 0.0'),('knots all<0','b && kf(kn - 1) < 0.0'),('domain across 0','b && dom().0 < 0.0 && dom().1 > 0.0'),('one span','b && c == d + 1'),('D==0','b && d == 0'),('D==1','b && d == 1'),('D>=4','b && d >= 4'),('D>=7','b && d >= 7'),('D>=8','b && d >= 8'),('C>=10','b && c >= 10'),('C>=20','b && c >= 20'),('C>=60','b && c >= 60'),('C>=200','b && c >= 200'),
('t on knot','b && tt(&|t| (0..kn).any(|i| kf(i) == t))'),('t dom end','b && tt(&|t| t == dom().1)'),('t dom start','b && tt(&|t| t == dom().0)'),('t interior knot','b && tt(&|t| t > dom().0 && t < dom().1 && (0..kn).any(|i| kf(i) == t))'),('t interior double knot','b && tt(&|t| t > dom().0 && t < dom().1 && (0..kn).any(|i| kf(i) == t && mult(i) >= 2))'),('t full knot','b && d > 1 && tt(&|t| t > dom().0 && t < dom().1 && (0..kn).any(|i| kf(i) == t && mult(i) == d))'),('t break','b && d > 0 && tt(&|t| t > dom().0 && t < dom().1 && (0..kn).any(|i| kf(i) == t && mult(i) == d + 1))'),('t last span','b && c > d + 1 && tt(&|t| t > kf(c - 1) && t < dom().1)'),('t just before knot','b && tt(&|t| (0..kn).any(|i| t < kf(i) && kf(i) - t < 1e-12 * kf(i).abs()))'),('t just after','b && tt(&|t| (0..kn).any(|i| t > kf(i) && t - kf(i) < 1e-12 * kf(i).abs()))'),
('unclamped','b && d > 0 && kf(0) < kf(d) && kf(c) < kf(kn - 1)'),('clamped start','b && d > 0 && kf(0) == kf(d) && kf(c) < kf(kn - 1)'),('clamped end','b && d > 0 && kf(0) < kf(d) && kf(c) == kf(kn - 1)'),('almost clamped','b && d > 0 && kf(0) < kf(d) && kf(d) - kf(0) < 1e-9'),
('min span<1e-6','b && minspan() < 1e-6'),('min span<1e-12','b && minspan() < 1e-12'),('min span<1e-16','b && minspan() < 1e-16'),('span ratio>1e6','b && maxspan() > 1e6 * minspan()'),('knots>1e6','b && kf(kn - 1) > 1e6'),('knots<1e-6','b && kf(kn - 1).abs() < 1e-6 && kf(0).abs() < 1e-6'),('uniform','b && c > d + 2 && maxspan() - minspan() < 1e-12 * maxspan()'),('nonuniform','b && c > d + 2 && maxspan() > 1.5 * minspan()'),('far knots','b && dom().0.abs() > 1e4 * (dom().1 - dom().0)'),('interior mult 2','b && c > d + 2 && (d + 1..c).any(|i| mult(i) == 2)'),('interior mult 3','b && c > d + 3 && (d + 1..c).any(|i| mult(i) == 3)'),('triple with D>=5','b && d >= 5 && (d + 1..c).any(|i| mult(i) == 3)'),('unit domain','b && dom() == (0.0, 1.0)'),('bezier-like','b && d > 1 && c > d + 1 && (d + 1..c).all(|i| mult(i) == d)'),('end partly clamped','b && d > 1 && kf(0) < kf(1) && kf(1) == kf(d)'),
]
