"""behaviour-preserving edits (developer suite: canonical summaries must not change). usage: refactor1.py MDLIBDIR"""
import sys, re
D = sys.argv[1]
def ed(f, *prs):
    p = D + '/' + f; s = open(p).read()
    for a, b in prs:
        if s.count(a) < 1: print('NOT FOUND', f, a[:80]); continue
        s = s.replace(a, b, 1)
    open(p, 'w').write(s)

def fn(f, name, *prs, sub=None):
    """edits inside one function"""
    p = D + '/' + f; s = open(p).read()
    m = re.search(r'^[A-Za-z_][\w \*]*\b%s\s*\([^;{]*\)\s*\{' % name, s, re.M)
    if not m: print('NOFN', name); return
    i = m.end(); d = 1
    while d:
        c = s[i]
        d += (c == '{') - (c == '}'); i += 1
    body = s[m.start():i]
    for a, b in prs:
        if a not in body: print('NOT FOUND', name, a[:80]); continue
        body = body.replace(a, b, 1)
    s = s[:m.start()] + body + s[i:]
    open(p, 'w').write(s)

def pre(f, name, txt):
    """insert text before a function"""
    p = D + '/' + f; s = open(p).read()
    m = re.search(r'^[A-Za-z_][\w \*]*\b%s\s*\([^;{]*\)\s*\{' % name, s, re.M)
    s = s[:m.start()] + txt + '\n' + s[m.start():]
    open(p, 'w').write(s)

import os
W = {}
for f in os.listdir(D):
    if f.endswith('.c'): W[f] = open(D + '/' + f).read()
def where(name):
    for f, s in W.items():
        if re.search(r'^[A-Za-z_][\w \*]*\b%s\s*\([^;{]*\)\s*\{' % name, s, re.M): return f
    print('nowhere', name)

# ScaleMe: locals, reordered
f = where('ScaleMe')
fn(f, 'ScaleMe', ('    scale->t    = scale->L / scale->V;\n', '    const double L = scale->L, T2 = scale->T;\n    double t2;\n    scale->t    = L / scale->V;\n    t2 = scale->t*scale->t;\n'),
   ('scale->m    = scale->S * scale->L * pow(scale->t,2.0);', 'scale->m    = t2 * scale->S * L;'),
   ('    scale->F    = scale->m * scale->L / pow(scale->t, 2.0);\n    scale->J    = scale->m * pow(scale->L,2.0) / pow(scale->t,2.0);\n', '    scale->J    = scale->m * (L*L) / t2;\n    scale->F    = scale->m * L / t2;\n'))
# Courant: loop interchange, ifs instead of macros, helper
f = where('EvaluateCourantCriterion')
pre(f, 'EvaluateCourantCriterion', '''static void velrange( const double *V, int nx, int nz, double *lo, double *hi ) {
    for (int j=0; j<nz; j++) {
        for (int i=0; i<nx; i++) {
            const double v = V[j*nx + i];
            if (v > *hi) *hi = v;
            if (v < *lo) *lo = v;
        }
    }
}
''')
fn(f, 'EvaluateCourantCriterion', ('''    for (k=0; k<model->Nx; k++) {
        for (l=0; l<model->Nz+1; l++) {
            c = k + l*model->Nx;
            maxVx = MAXV(maxVx, (Vx[c]));
            minVx = MINV(minVx, (Vx[c]));
        }
    }

    for (k=0; k<model->Nx+1; k++) {
        for (l=0; l<model->Nz; l++) {
            c = k + l*(model->Nx+1);
            maxVz = MAXV(maxVz, (Vz[c]));
            minVz = MINV(minVz, (Vz[c]));
        }
    }
''', '''    velrange(Vx, model->Nx, model->Nz+1, &minVx, &maxVx);
    velrange(Vz, model->Nx+1, model->Nz, &minVz, &maxVz);
'''), ('''        double fact = 1.0;

        // Timestep increase factor
        if ( model->elastic == 1 ) {
            fact = 1.25;
        }
        else {
            fact = 2.00;
        }
''', '''        const double fact = model->elastic == 1 ? 1.25 : 2.0;
'''))
# UpdateDensity: local accumulator, continue
fn(where('UpdateDensity'), 'UpdateDensity', ('    mesh->rho_n[c0]  = 0.0;\n', '    double acc = 0.0;\n'),
   ('      if ( fabs(mesh->phase_perc_n[p][c0])>epsi) {', '      const double frac = mesh->phase_perc_n[p][c0];\n      if ( !(fabs(frac)>epsi) ) continue;\n      {'),
   ('if ( mesh->BCp.type[c0] != 30 )             mesh->rho_n[c0]  += mesh->phase_perc_n[p][c0] * rho;', 'if ( mesh->BCp.type[c0] != 30 )             acc  += frac * rho;'),
   ('    // mesh->rho_n[c0]              = 1.0/', '    mesh->rho_n[c0] = acc;\n    // mesh->rho_n[c0]              = 1.0/'))
# AddCoeff3: switch
fn(where('AddCoeff3'), 'AddCoeff3', ('''    if (NODE_TYPE == 0 || NODE_TYPE == 31 || NODE_TYPE == 11 || NODE_TYPE == 13) {
        RHS[eqn]  -= coeff * NODE_VAL;
    }
    else {
        J[(*nnzc)] = jeq;
        A[(*nnzc)] = coeff;
        (*nnzc)++;
    }''', '''    switch (NODE_TYPE) {
        case 0: case 11: case 13: case 31:
            RHS[eqn] = RHS[eqn] - NODE_VAL*coeff;
            return;
        default: break;
    }
    const int n = *nnzc;
    A[n] = coeff;
    J[n] = jeq;
    *nnzc = n + 1;'''))
# RogerGunther: renamed/reordered allocations, helper for the shoot
f = where('RogerGunther')
pre(f, 'RogerGunther', '''static void shoot( markers *particles, double *x0, double *z0, double *Vx, double *Vz, double step ) {
    int k = 0;
    while (k < particles->Nb_part) {
        if (particles->phase[k] == -1) { k++; continue; }
        particles->z[k] = z0[k] + step * Vz[k];
        particles->x[k] = x0[k] + step * Vx[k];
        k++;
    }
}
''')
fn(f, 'RogerGunther', ('''        for(k=0; k<Nb_part; k++) {

            // Marker shoot #1
            if (particles->phase[k] != -1) {
                particles->x[k] = xA[k] + 0.5 * model.dt * VxA[k];
                particles->z[k] = zA[k] + 0.5 * model.dt * VzA[k];
            }
        }
''', '''        for (k=0;k<0;k++) ;
        shoot( particles, xA, zA, VxA, VzA, 0.5*model.dt );
'''), ('''    VxA = DoodzCalloc( Nb_part,sizeof(DoodzFP));
    VzA = DoodzCalloc( Nb_part,sizeof(DoodzFP));
''', ''), ('''    zA  = DoodzCalloc( Nb_part,sizeof(DoodzFP));
''', '''    zA  = DoodzCalloc( Nb_part,sizeof(DoodzFP));
    VzA = DoodzCalloc( Nb_part,sizeof(DoodzFP));
    VxA = DoodzCalloc( Nb_part,sizeof(DoodzFP));
'''))
# P2Mastah: grid selection by switch, helper for the weights
f = where('P2Mastah')
pre(f, 'P2Mastah', '''static void addw( double *wm, double *bm, double *wp, int kp, double dxm, double dzm, double hx, double hz, double val ) {
    const double w = (1.0-dxm/hx)*(1.0-dzm/hz);
    wp[kp] += w;
    wm[kp] += w;
    bm[kp] += w*val;
}
''')
fn(f, 'P2Mastah', ('''                Wm_ph[thread_num][p][kp]  +=          (1.0-dxm/dx_itp)*(1.0-dzm/dz_itp);
                Wm[thread_num][kp]        +=          (1.0-dxm/dx_itp)*(1.0-dzm/dz_itp);
                BmWm[thread_num][kp]      += mark_val*(1.0-dxm/dx_itp)*(1.0-dzm/dz_itp);
''', '''                addw( Wm[thread_num], BmWm[thread_num], Wm_ph[thread_num][p], kp, dxm, dzm, dx_itp, dz_itp, mark_val );
'''), ('''        if ( fabs(WM[i])<1e-30  || (NodeType[i]==30 || NodeType[i]==31) ) {
        }
        else {
            ''', '''        if ( NodeType[i]==31 || NodeType[i]==30 ) continue;
        if ( !(fabs(WM[i])<1e-30) ) {
            '''), ('''            av = 0.5*(NodeField[c1] + NodeField[l*Nx]);
            NodeField[c1] = av; NodeField[l*Nx] = av;''', '''            av = 0.5*(NodeField[l*Nx] + NodeField[c1]);
            NodeField[l*Nx] = av; NodeField[c1] = av;'''),
   ('''            WM[i]   += Wm[k][i];
            BMWM[i] += BmWm[k][i];
''', '''            BMWM[i] = BMWM[i] + BmWm[k][i];
            WM[i]   = WM[i] + Wm[k][i];
'''))
