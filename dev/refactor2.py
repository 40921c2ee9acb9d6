"""second suite of behaviour-preserving edits, as a maintainer would write them (developer suite: canonical summaries must not change). usage: refactor2.py MDLIBDIR"""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
exec(open(os.path.dirname(os.path.abspath(__file__)) + '/refactor1.py').read().split('# ScaleMe:')[0])
def E(name, *prs, before=None):
    f = where(name)
    if before: pre(f, name, before)
    fn(f, name, *prs)

# --- ViscosityConcise: helper for bounds, ternaries, hoisted subexpressions, reordered declarations
E('ViscosityConcise',
  ('  if (constant == 1)    {eta_up = MINV(eta_up, eta_cst); eta_lo = MAXV(eta_lo, eta_cst);}\n', '  if (constant == 1)    tighten(&eta_up, &eta_lo, eta_cst);\n'),
  ('  if (dislocation == 1) {eta_up = MINV(eta_up, eta_pwl); eta_lo = MAXV(eta_lo, eta_pwl);}\n', '  if (dislocation == 1) tighten(&eta_up, &eta_lo, eta_pwl);\n'),
  ('  if (elastic == 1)     {eta_up = MINV(eta_up, eta_el) ; eta_lo = MAXV(eta_lo, eta_el) ;}\n', '  if (elastic == 1)     tighten(&eta_up, &eta_lo, eta_el);\n'),
  ('  if (peierls == 1)     {eta_up = MINV(eta_up, eta_exp); eta_lo = MAXV(eta_lo, eta_exp);}\n', '  if (peierls == 1)     tighten(&eta_up, &eta_lo, eta_exp);\n'),
  ('  double dt;\n  if (model->step==0) dt = 1e100;\n  else dt = model->dt;\n', '  const double dt = model->step == 0 ? 1e100 : model->dt;\n'),
  ('  Eii   = sqrt(1.0 / 2.0 * (Exx * Exx + Ezz * Ezz + Eyy * Eyy) + Exz * Exz);\n', '  Eii   = invariant2(Exx, Eyy, Ezz, Exz);\n'),
  ('      *Eii_el   = sqrt(0.5*(Exx_el*Exx_el + Ezz_el*Ezz_el + Eyy_el*Eyy_el) + Exz_el*Exz_el);\n', '      *Eii_el   = invariant2(Exx_el, Eyy_el, Ezz_el, Exz_el);\n'),
  ('''  *Txx       = 2.0*(*etaVE)*Exx;
  *Tzz       = 2.0*(*etaVE)*Ezz;
  *Txz       = 2.0*(*etaVE)*Exz;
''', '''  const double two_eta = 2.0*(*etaVE);
  *Txz       = two_eta*Exz;
  *Tzz       = two_eta*Ezz;
  *Txx       = two_eta*Exx;
'''),
  ('''  if( *etaVE > max_eta ) {
    *etaVE = max_eta;
  }

  if( *etaVE < min_eta ) {
    *etaVE = min_eta;
  }
''', '''  *etaVE = clampd(*etaVE, min_eta, max_eta);
'''),
  ('''      for (it=0; it<nitmax; it++) {

        dQdP    = -sin_dil;
''', '''      dQdP    = -sin_dil;
      for (it=0; it<nitmax; it++) {

'''),
  ('''  if (is_pl == 0) {
    (*etaVE)    = eta_ve;
    (*div_pl)   = 0.0;
  }
  else {
    (*etaVE)    = eta_vep;
    (*div_pl)   = divp;
    eta_pl      = Tii/gdot;
  }
''', '''  if (is_pl) {
    eta_pl      = Tii/gdot;
    (*div_pl)   = divp;
  }
  else {
    (*div_pl)   = 0.0;
  }
  (*etaVE) = is_pl ? eta_vep : eta_ve;
'''),
  before='''static void tighten(double *up, double *lo, double eta) { if (eta < *up) *up = eta; if (eta > *lo) *lo = eta; }
static double invariant2(double xx, double yy, double zz, double xz) { return sqrt(0.5*(xx*xx + yy*yy + zz*zz) + xz*xz); }
static double clampd(double v, double lo, double hi) { if (v > hi) v = hi; if (v < lo) v = lo; return v; }
''')
# --- DeformationGradient: l/k interchange, hoisted reciprocal, product helper
E('DeformationGradient',
  ('''    for (k=0; k<Nx-1; k++) {
        for (l=0; l<Nz-1; l++) {
''', '''    const double idx = 1.0/dx, idz = 1.0/dz;
    for (l=0; l<Nz-1; l++) {
        for (k=0; k<Nx-1; k++) {
'''),
  ('            dudx[cp] = 1.0/dx * ( mesh.u_in[cu+1]      - mesh.u_in[cu] );\n            dvdz[cp] = 1.0/dz * ( mesh.v_in[cv+(Nx+1)] - mesh.v_in[cv] );\n',
   '            dvdz[cp] = idz * ( mesh.v_in[cv+(Nx+1)] - mesh.v_in[cv] );\n            dudx[cp] = idx * ( mesh.u_in[cu+1]      - mesh.u_in[cu] );\n'),
  ('dudz[cu] = 1.0/dz * (', 'dudz[cu] = idz * ('), ('dvdx[cu] = 1.0/dx * (', 'dvdx[cu] = idx * ('),
  ('''        fxx_o = particles->Fxx[k];
        fxz_o = particles->Fxz[k];
        fzx_o = particles->Fzx[k];
        fzz_o = particles->Fzz[k];
        particles->Fxx[k] = fxx*fxx_o + fxz*fzx_o;
        particles->Fxz[k] = fxx*fxz_o + fxz*fzz_o;
        particles->Fzx[k] = fzx*fxx_o + fzz*fzx_o;
        particles->Fzz[k] = fzx*fxz_o + fzz*fzz_o;
''', '''        updateF(particles, k, fxx, fxz, fzx, fzz);
'''), before='''static void updateF(markers *p, int k, double fxx, double fxz, double fzx, double fzz) {
    const double a = p->Fxx[k], b = p->Fxz[k], c = p->Fzx[k], d = p->Fzz[k];
    p->Fxx[k] = fxx*a + fxz*c;
    p->Fzx[k] = fzx*a + fzz*c;
    p->Fxz[k] = fxx*b + fxz*d;
    p->Fzz[k] = fzx*b + fzz*d;
}
''')
# --- upwind: helper with ternary
E('FirstOrderUpwindAdvection',
  ('''            if ( Vx[cc] > 0.0 ) {
                qx = Vx[cc]/dx * ( Field0[cc] - Field0[cc-1] );
            }
            else {
                qx = Vx[cc]/dx * ( Field0[cc+1] - Field0[cc] );
            }

            if ( Vz[cc] > 0.0 ) {
                qz = Vz[cc]/dz * ( Field0[cc] - Field0[cc-Nx] );
            }
            else {
                qz = Vz[cc]/dz * ( Field0[cc+Nx] - Field0[cc] );
            }
            Field[cc] = Field0[cc] - dt*qx - dt*qz;
''', '''            qx = upwind(Vx[cc], dx, Field0 + cc, 1);
            qz = upwind(Vz[cc], dz, Field0 + cc, Nx);
            Field[cc] = Field0[cc] - dt*(qx + qz);
'''), before='''static double upwind(double V, double h, const double *f, int s) {
    const double diff = V > 0.0 ? f[0] - f[-s] : f[s] - f[0];
    return V/h*diff;
}
''')
# --- SurfaceDensityCorrection: height helper, else-if, hoisted ratio
E('SurfaceDensityCorrection',
  ('''                h  = topo.b[i] + topo.a[i]*mesh->xc_coord[i];
                h0               = fabs(h - mesh->zc_coord[j]);
''', '''                h0               = fabs(hcol(&topo, mesh, i) - mesh->zc_coord[j])/dz;
'''),
  ('''                mesh->rho_n[c1]  *= h0/dz;
                mesh->rho0_n[c1] *= h0/dz;
                mesh->FreeSurfW_n[c1] = h0/dz;
''', '''                mesh->FreeSurfW_n[c1] = h0;
                mesh->rho0_n[c1] *= h0;
                mesh->rho_n[c1]  *= h0;
'''),
  ('''                if (i==0)    h  = topo.b[i] + topo.a[i]*mesh->xc_coord[i];
                if (i==nx-1) h  = topo.b[nx-2] + topo.a[nx-2]*mesh->xc_coord[nx-2];
                if (i>0 && i<nx-1) {
                    h  = 0.5*(topo.b[i] + topo.a[i]*mesh->xc_coord[i]);
                    h += 0.5*(topo.b[i-1] + topo.a[i-1]*mesh->xc_coord[i-1]);
                }
''', '''                if (i==0)         h = hcol(&topo, mesh, 0);
                else if (i==nx-1) h = hcol(&topo, mesh, nx-2);
                else              h = 0.5*(hcol(&topo, mesh, i-1) + hcol(&topo, mesh, i));
'''), before='''static double hcol(const surface *t, const grid *m, int i) { return t->a[i]*m->xc_coord[i] + t->b[i]; }
''')
# --- centroids to vertices: fused side loops, helper
E('InterpCentroidsToVerticesDouble',
  ('''        temp[c0]      = temp[c1];
        temp_flag[c0] = temp_flag[c1];
    }
    for (k=1; k<Ncx+1; k++) {
        c0 = k + (Ncz+1)*(Ncx+2);   // North
        c1 = k + (Ncz  )*(Ncx+2);   // down neighbour
        temp[c0]      = temp[c1];
        temp_flag[c0] = temp_flag[c1];
    }
''', '''        ghost(temp, temp_flag, c0, c1);
        c0 = k + (Ncz+1)*(Ncx+2);   // North
        c1 = k + (Ncz  )*(Ncx+2);   // down neighbour
        ghost(temp, temp_flag, c0, c1);
    }
'''),
  ('''        if (per == 0) c1 = 1           + (l)*(Ncx+2);       // right neighbour
        if (per == 1) c1 = (Ncx+2-1-1) + (l)*(Ncx+2);       // right neighbour
        temp[c0]      = temp[c1];
        temp_flag[c0] = temp_flag[c1];
''', '''        if (per == 0) c1 = 1   + (l)*(Ncx+2);       // right neighbour
        if (per == 1) c1 = Ncx + (l)*(Ncx+2);       // right neighbour
        ghost(temp, temp_flag, c0, c1);
'''), before='''static void ghost(double *t, int *f, int dst, int src) { f[dst] = f[src]; t[dst] = t[src]; }
''')
# --- ApplyBC: loops merged
E('ApplyBC', ('''    // Vz Dirichlet
    for( j=0; j<nz; j++) {
        // West
        if ( mesh->BCv.type[j*nxvz] == 11 ) {
            mesh->v_in[j*nxvz] = mesh->BCv.val[j*nxvz] - mesh->v_in[j*nxvz + 1];
        }
        // East
        if ( mesh->BCv.type[j*nxvz+(nxvz-1)] == 11 ) {
            mesh->v_in[j*nxvz + (nxvz-1)] = mesh->BCv.val[j*nxvz+(nxvz-1)] - mesh->v_in[j*nxvz + (nxvz-1) -1];
        }
    }
''', '''    // Vz Dirichlet
    for( j=0; j<nz; j++) {
        const int iW = j*nxvz, iE = iW + nxvz - 1;
        double *v = mesh->v_in;
        if ( mesh->BCv.type[iW] == 11 ) v[iW] = mesh->BCv.val[iW] - v[iW+1];
        if ( mesh->BCv.type[iE] == 11 ) v[iE] = mesh->BCv.val[iE] - v[iE-1];
    }
'''))
# --- ExtractSolutions2: predicate helper
E('ExtractSolutions2',
  ('        if ( mesh->BCu.type[cc] != 30 && mesh->BCu.type[cc] != 0 && mesh->BCu.type[cc] != 11 && mesh->BCu.type[cc] != 13 && mesh->BCu.type[cc] != -12 ) {\n            mesh->u_in[cc] = mesh->u_in[cc] + alpha*dx[Stokes->eqn_u[cc]];',
   '        if ( free_dof(mesh->BCu.type[cc]) ) {\n            mesh->u_in[cc] += alpha*dx[Stokes->eqn_u[cc]];'),
  ('        if ( mesh->BCv.type[cc] != 30 && mesh->BCv.type[cc] != 0 && mesh->BCv.type[cc] != 11 && mesh->BCv.type[cc] != 13 && mesh->BCv.type[cc] != -12 ) {\n', '        if ( free_dof(mesh->BCv.type[cc]) ) {\n'),
  ('        if ( mesh->BCp.type[cc] != 30 && mesh->BCp.type[cc] != 0  && mesh->BCp.type[cc] != 31 ) {\n            mesh->p_in[cc] =  mesh->p_in[cc] + alpha*dx[Stokes->eqn_p[cc]];\n        }',
   '        const int t = mesh->BCp.type[cc];\n        if ( t == 30 || t == 31 || t == 0 ) continue;\n        mesh->p_in[cc] += alpha*dx[Stokes->eqn_p[cc]];'),
  before='''static int free_dof(int t) {
    switch (t) {
        case 30: case 0: case 11: case 13: case -12: return 0;
        default: return 1;
    }
}
''')
# --- EvaluateRHS: helper for polar gravity, negation folded
E('EvaluateRHS',
  ('''                x   = mesh->xg_coord[k];
                z   = mesh->zvx_coord[l];
                tet = atan(z/x);
                if (tet>0.0) gx     = model.gz*cos(tet);
                if (tet<0.0) gx     =-model.gz*cos(tet);
''', '''                tet = atan(mesh->zvx_coord[l]/mesh->xg_coord[k]);
                const double pg = model.gz*cos(tet);
                if (tet>0.0) gx     = pg;
                else if (tet<0.0) gx = -pg;
'''),
  ('                   if (model.surface_processes >= 1 && ( mesh->BCp.type[iPrS] == 30 || mesh->BCp.type[iPrS] == 31 || mesh->BCp.type[iPrN] == 30 || mesh->BCp.type[iPrN] == 31 ) ) {\n',
   '                   if (model.surface_processes >= 1 && ( is_air(mesh->BCp.type[iPrS]) || is_air(mesh->BCp.type[iPrN]) ) ) {\n'),
  ('                    mesh->roger_x[c]  = - gx * rhoVx;\n', '                    const double fx = gx * rhoVx;\n                    mesh->roger_x[c]  = -fx;\n'),
  before='static int is_air(int t) { return t == 30 || t == 31; }\n')
# --- CellFlagging: ternary column, clamped index
E('CellFlagging', ('''        if (i==0) {
            h = TopoFun( mesh->xvz_coord[i], 0, topo, scaling );
        }
        
        if (i==ncx+1) {
            h = TopoFun( mesh->xvz_coord[i], ncx-1, topo, scaling );
        }
        
        if (i>0 && i<ncx+1) {
            h = TopoFun( mesh->xvz_coord[i], i-1, topo, scaling );
        }
''', '''        int col = i-1;
        if (i==0)     col = 0;
        if (i==ncx+1) col = ncx-1;
        h = TopoFun( mesh->xvz_coord[i], col, topo, scaling );
'''), ('''            PVtag0[c1] = -1;
            if (mesh->zvx_coord[j]>h) {
                // Deactivate pressure cells over the surface
                PVtag0[c1] = 30;
            }
''', '''            PVtag0[c1] = mesh->zvx_coord[j]>h ? 30 : -1;
'''), ('''    for( j=0; j<ncz+2; j++ ) {
        
        c1 = 0 + j*(ncx+2);
        c1 = ncx+1 + j*(ncx+2);
''', '''    for( j=0; j<ncz+2; j++ ) {
        
        c1 = (j+1)*(ncx+2) - 1;
'''))
# --- UpdateParticleStress: director helper, local pointers
E('UpdateParticleStress', ('''                particles->nx[k] += dt*(-(mdudx - mdvdz)*nx*nz - mdvdx*nz*nz + mdudz*nx*nx)*nz;
                particles->nz[k] += dt*( (mdudx - mdvdz)*nx*nz + mdvdx*nz*nz - mdudz*nx*nx)*nx;
                double norm = sqrt( pow(particles->nx[k],2) + pow(particles->nz[k],2));
                particles->nx[k] /= norm;
                particles->nz[k] /= norm;
''', '''                const double w = dt*((mdudx - mdvdz)*nx*nz + mdvdx*nz*nz - mdudz*nx*nx);
                const double nx1 = nx - w*nz;
                const double nz1 = nz + w*nx;
                const double norm = sqrt( nx1*nx1 + nz1*nz1 );
                particles->nx[k] = nx1/norm;
                particles->nz[k] = nz1/norm;
'''), ('''            dudz_s[c1] = (mesh->u_in[c1+Nx] - mesh->u_in[c1])/dz;
            dvdx_s[c1] = (mesh->v_in[c3+1 ] - mesh->v_in[c3])/dx;
''', '''            const double du = mesh->u_in[c1+Nx] - mesh->u_in[c1];
            const double dv = mesh->v_in[c3+1 ] - mesh->v_in[c3];
            dvdx_s[c1] = dv/dx;
            dudz_s[c1] = du/dz;
'''))
# --- Softening: helpers for both laws, switch on the average
E('Softening', ('''      if (materials.phi_soft[p] == 1) {
        dfric     = materials.phi[p]     - materials.phi_end[p];
        fric      = materials.phi[p]     - dfric/2.0 *erfc( -(strain_acc - mu_strain) / dstrain ) - materials.phi_end[p];
        fric0     = materials.phi[p]     - dfric/2.0 *erfc( -(       0.0 - mu_strain) / dstrain ) - materials.phi_end[p];
        fric      = fric * dfric / fric0 + materials.phi_end[p];
      }
''', '''      if (materials.phi_soft[p] == 1) fric = erfsoft(materials.phi[p], materials.phi_end[p], strain_acc, mu_strain, dstrain);
'''), ('''      if (materials.coh_soft[p] == 1) {
        dcoh      = materials.C[p]       - materials.C_end[p];
        C         = materials.C[p]       - dcoh /2.0 *erfc( -(strain_acc - mu_strain) / dstrain ) - materials.C_end[p];
        C0        = materials.C[p]       - dcoh /2.0 *erfc( -(       0.0 - mu_strain) / dstrain ) - materials.C_end[p];
        C         = C * dcoh / C0 + materials.C_end[p];
      }
''', '''      if (materials.coh_soft[p] == 1) C = erfsoft(materials.C[p], materials.C_end[p], strain_acc, mu_strain, dstrain);
'''), ('''fric = materials.phi[p] + (materials.phi_end[p] - materials.phi[p]) / (materials.pls_end[p] - materials.pls_start[p]) * (strain_acc - materials.pls_start[p]);''', '''fric = materials.phi[p] + (materials.phi_end[p] - materials.phi[p]) * ((strain_acc - materials.pls_start[p]) / dstrain);'''),
  before='''static double erfsoft(double v0, double v1, double e, double mu, double de) {
  const double dv = v0 - v1;
  const double s  = dv - 0.5*dv*erfc( (mu - e)/de );
  const double s0 = dv - 0.5*dv*erfc( mu/de );
  return v1 + s*dv/s0;
}
''')
# --- SetBCs: position helper
E('SetBCs', ('''        POSITION position;
        if (k == 0) {
          if (l == mesh->Nz) {
            position = NW;
          } else if (l == 0) {
            position = SW;
          } else {
            position = W;
          }
        } else if (k == mesh->Nx - 1) {
          if (l == mesh->Nz) {
            position = NE;
          } else if (l == 0) {
            position = SE;
          } else {
            position = E;
          }
        } else if (l == 0) {
          position = S;
        } else if (l == mesh->Nz) {
          position = N;
        } else {
          position = INTERNAL;
        }
''', '''        const POSITION position = where_is(k, l, mesh->Nx - 1, mesh->Nz);
'''), ('''        mesh->BCu.val[c]  = bc.value;
        if (bc.type == 11) mesh->BCu.val[c] = 2.0 * bc.value;
''', '''        mesh->BCu.val[c]  = bc.type == 11 ? 2.0 * bc.value : bc.value;
'''), before='''static POSITION where_is(int k, int l, int kmax, int lmax) {
  if (l == 0)    return k == 0 ? SW : (k == kmax ? SE : S);
  if (l == lmax) return k == 0 ? NW : (k == kmax ? NE : N);
  if (k == 0)    return W;
  if (k == kmax) return E;
  return INTERNAL;
}
''')
# --- MakeBreakpointParticles: scaling helper, split loops
E('MakeBreakpointParticles', ('''        particles->x[k]      *= scaling.L;
        particles->z[k]      *= scaling.L;
        particles->P[k]      *= scaling.S;
        particles->rho[k]    *= scaling.rho;
''', '''        particles->x[k]      = particles->x[k]*scaling.L;
        particles->rho[k]    *= scaling.rho;
        particles->P[k]      *= scaling.S;
    }
    for ( k=0; k<particles->Nb_part; k++ ) {
        particles->z[k]      *= scaling.L;
'''), ('''        mesh->Work_time[k]      *= (scaling.rhoE*scaling.L*scaling.L);
        mesh->Uthermal_time[k]  *= (scaling.rhoE*scaling.L*scaling.L);
''', '''        const double en = scaling.rhoE*pow(scaling.L, 2);
        mesh->Work_time[k]      *= en;
        mesh->Uthermal_time[k]  *= en;
'''))
# --- EnergyDirectSolve: flux helper, locals for types
E('EnergyDirectSolve', ('''                if ( shear_heating == 1 ) {
                    b[eqn] += mesh->Wdiss[c2];
                    Hs[c2]  = mesh->Wdiss[c2];
                }
''', '''                if ( shear_heating == 1 ) {
                    Hs[c2]  = mesh->Wdiss[c2];
                    b[eqn] += Hs[c2];
                }
'''), ('''                            if (mesh->BCT_exp.type[c0-(ncx+2)] != 30 ) {
                                val +=  AS*one_dz_dz;
                            }
                            // Dirichlet contribution (free surface)
                            else {
                                if (mesh->BCT_exp.type[c0] == 1 ) {
                                    val      += 2.0*ks*one_dz_dz;
                                    bbc[eqn] += 2.0*ks*one_dz_dz * mesh->BCT_exp.val[c0];
                                }
                            }
''', '''                            side( mesh, c0, c0-(ncx+2), AS, ks, one_dz_dz, &val, &bbc[eqn] );
'''), ('''                            if (mesh->BCT_exp.type[c0-1] != 30 ) {
                                val +=  AW*one_dx_dx;
                            }
                            // Dirichlet contribution (free surface)
                            else {
                                if (mesh->BCT_exp.type[c0] == 1 ) {
                                    val      += 2.0*ks*one_dx_dx;
                                    bbc[eqn] += 2.0*ks*one_dx_dx * mesh->BCT_exp.val[c0];
                                }
                            }
''', '''                            side( mesh, c0, c0-1, AW, ks, one_dx_dx, &val, &bbc[eqn] );
'''), before='''static void side( const grid *m, int c, int nb, double A, double ks, double h2, double *diag, double *rhs ) {
    if ( m->BCT_exp.type[nb] != 30 ) { *diag += A*h2; return; }
    if ( m->BCT_exp.type[c] == 1 ) {
        const double w = 2.0*ks*h2;
        *diag += w;
        *rhs  += w*m->BCT_exp.val[c];
    }
}
''')
# --- CountPartCell: fine-cell helper
E('CountPartCell', ('''            // Get the column:
            distance = ( particles->x[k] - (xmin + dx/2) );
            ic       = ceil( (distance/dx) + 0.5) - 1;
            if (ic<0    ) ic = 0;
            if (ic>ncx-1) ic = ncx-1;

            // Get the line:
            distance = ( particles->z[k] - (zmin + dz/2) );
            jc       = ceil( (distance/dz) + 0.5) - 1;
            if (jc<0    ) jc = 0;
            if (jc>ncz-1) jc = ncz-1;

            // Center
            kc = ic + jc*ncx;

            // Add particle to finer mesh cell
            nb_part_cell[kc] += 1;
''', '''            nb_part_cell[ cell_of(particles->x[k], xmin, dx, ncx) + ncx*cell_of(particles->z[k], zmin, dz, ncz) ]++;
'''), before='''static int cell_of(double x, double x0, double h, int n) {
    const int i = ceil( (x - (x0 + h/2))/h + 0.5 ) - 1;
    return i < 0 ? 0 : (i > n-1 ? n-1 : i);
}
''')
# --- GridAlloc: helper
E('GridAlloc', ('''  mesh.eta_s        = (double *) DoodzCalloc(Nx * Nz, sizeof(double));
  mesh.eta_n        = (double *) DoodzCalloc((Nx - 1) * (Nz - 1), sizeof(double));
  mesh.rho_s        = (double *) DoodzCalloc(Nx * Nz, sizeof(double));
''', '''  const int Nv = Nx * Nz, Nc = (Nx - 1) * (Nz - 1);
  mesh.eta_n        = dvec(Nc);
  mesh.eta_s        = dvec(Nv);
  mesh.rho_s        = dvec(Nv);
'''), before='static double *dvec(int n) { return (double *) DoodzCalloc(n, sizeof(double)); }\n')
