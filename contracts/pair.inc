/* pairs of states for the schemes that use Roe averages */
/* any two states, given by the left state, R = sqrt(rho_r/rho_l), Roe's intermediate velocity (normal and tangential)
 * and the right sound speed: a bijective change of variables that keeps the Roe averages rational */
struct FvPair { FvState l, r; double vn, c; };
static inline FvPair fv_pair(double g, const double *n, double *u, double *w)
{
	FvPair o;
	o.l = fv_state_n("ul",g,n,u);
	const double R = fv_real_i("ur",0,0.5,2); fv_assume(R>0);
	o.vn = fv_real_i("ur",1,-2.5,2.5); const double vt = fv_real_i("ur",2,-2.5,2.5);
	FvState& s = o.r;
	s.c = fv_real_i("ur",3,0.3,2); fv_assume(s.c>0);
	const double lvt = fv_real_i("ul",2,-2.5,2.5);
	s.r = R*R*o.l.r; s.vn = o.vn + (o.vn-o.l.vn)/R; const double st = vt + (vt-lvt)/R;
	s.vx = s.vn*n[0] - st*n[1]; s.vy = s.vn*n[1] + st*n[0];
	s.p = s.r*s.c*s.c/g;
	w[0]=s.r; w[1]=s.r*s.vx; w[2]=s.r*s.vy; w[3]=s.p/(g-1)+0.5*s.r*(s.vn*s.vn+st*st);
	const double hl = o.l.c*o.l.c/(g-1) + 0.5*(o.l.vn*o.l.vn+lvt*lvt), hr = s.c*s.c/(g-1) + 0.5*(s.vn*s.vn+st*st);
	const double c2 = (g-1)*((R*hr+hl)/(R+1) - 0.5*(o.vn*o.vn+vt*vt));
	fv_assume(c2 > 0);
	o.c = sqrt(c2);
	return o;
}
