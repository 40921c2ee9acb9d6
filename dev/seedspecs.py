PRE = r'''
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <math.h>
#include <malloc.h>
#include <unistd.h>
#include <sys/stat.h>
#include "mdoodz-private.h"
static int bad = 0;
#define NEAR(a, b, tol) do { double _a = (a), _b = (b); if (!(fabs(_a - _b) <= (tol)*(1e-300 + fabs(_b)) + 1e-14)) { printf("MISMATCH line %d: %s = %.10e, expected %.10e\n", __LINE__, #a, _a, _b); bad = 1; } } while (0)
#define TRUE(c) do { if (!(c)) { printf("MISMATCH line %d: %s\n", __LINE__, #c); bad = 1; } } while (0)
#define DONE do { printf(bad ? "BROKEN\n" : "OK\n"); fflush(stdout); _exit(bad); } while (0)
static scale one(void) { scale s; memset(&s, 0, sizeof s); s.eta = s.L = s.V = s.T = 1; s.t = s.a = s.E = s.S = s.m = s.rho = s.F = s.J = s.W = s.Cp = s.rhoE = s.k = 1; return s; }
'''
GRID = PRE + r'''
static params MODEL(int Nx, int Nz) { params m; memset(&m, 0, sizeof m); m.Nx = Nx; m.Nz = Nz; m.xmin = -1; m.xmax = 1; m.zmin = -1; m.zmax = 1; m.dx = 2.0/(Nx-1); m.dz = 2.0/(Nz-1); m.Nb_phases = 2; m.dt = 0.1; m.Nt = 1; m.step = 1; m.interp_stencil = 1; return m; }
static grid MESH(params *m) {
  grid g = GridAlloc(m); int i;
  g.dx = m->dx; g.dz = m->dz;
  SetGridCoordinates(&g, m, m->Nx, m->Nz); GridIndices(&g);
  for (i = 0; i < m->Nx*(m->Nz+1); i++) g.BCu.type[i] = -1;
  for (i = 0; i < (m->Nx+1)*m->Nz; i++) g.BCv.type[i] = -1;
  for (i = 0; i < m->Nx*m->Nz; i++) g.BCg.type[i] = -1;
  for (i = 0; i < (m->Nx-1)*(m->Nz-1); i++) { g.BCp.type[i] = -1; g.BCt.type[i] = -1; }
  return g; }
static markers MARK(params *m, int n) { ParticlesInput p; memset(&p, 0, sizeof p); p.Nx_part = p.Nz_part = 4; p.min_part_cell = 16; p.Nb_part = n; p.Nb_part_max = 4*n + 64; return PartAlloc(p, m); }
'''
SEEDS = [
dict(id='c18-periodic-wrap', property='C18', edits=[('MDLIB/ParticleRoutines.c', 'kp  = ip + jp*Nx + (1.0-peri)*1 - peri*(Nx-1);', 'kp  = ip + jp*Nx + (1.0-peri)*1 - peri*(Nx-2);')],
 needs='a periodic box, the 9-cell interpolation stencil and a marker in the easternmost column of cells', breaks='the eastern periodic neighbour of a marker is no longer the first column: the weight goes to the second column, so a periodic field is interpolated with a wrong wrap-around',
 demo=GRID + r'''int main() { params m = MODEL(8, 6); m.periodic_x = 1; m.interp_stencil = 9; grid g = MESH(&m); markers p = MARK(&m, 1);
 p.x[0] = g.xc_coord[6] + 0.2*m.dx; p.z[0] = g.zc_coord[2]; p.phase[0] = 0; p.T[0] = 5.0; double f[35]; int i; for (i = 0; i < 35; i++) f[i] = 0;
 P2Mastah(&m, p, p.T, &g, f, g.BCp.type, 1, 0, 0, 1, 9);
 NEAR(f[0 + 2*7], 5.0, 1e-12); NEAR(f[1 + 2*7], 0.0, 1e-12); NEAR(f[6 + 2*7], 5.0, 1e-12); DONE; }'''),
dict(id='c19-rk4-third-stage', property='C19', edits=[('MDLIB/AdvectionRoutines.c', 'particles->x[k] = xA + 1.0 * model.dt * VxC;\n', 'particles->x[k] = xA + 0.5 * model.dt * VxC;\n')],
 needs='advection in a velocity field that varies in space (a rotation), compared with the exact fourth-order update', breaks='the last Runge-Kutta stage is evaluated half a step too early in x, so the advection scheme loses its order',
 demo=GRID + r'''int main() { params m = MODEL(11, 11); grid g = MESH(&m); markers p = MARK(&m, 1); int i, j; m.RK = 4; m.dt = 0.5;
 for (j = 0; j < 12; j++) for (i = 0; i < 11; i++) g.u_in[i + j*11] = -g.zvx_coord[j];
 for (j = 0; j < 11; j++) for (i = 0; i < 12; i++) g.v_in[i + j*12] = g.xvz_coord[i];
 p.x[0] = 0.31; p.z[0] = 0.12; p.phase[0] = 0; scale s = one();
 double x = 0.31, z = 0.12, h = 0.5, k1x = -z, k1z = x, k2x = -(z + .5*h*k1z), k2z = x + .5*h*k1x, k3x = -(z + .5*h*k2z), k3z = x + .5*h*k2x, k4x = -(z + h*k3z), k4z = x + h*k3x;
 RogerGuntherII(&p, m, g, 1, s);
 NEAR(p.x[0], x + h/6*(k1x + 2*k2x + 2*k3x + k4x), 1e-10); NEAR(p.z[0], z + h/6*(k1z + 2*k2z + 2*k3z + k4z), 1e-10); DONE; }'''),
dict(id='c20-inherit-shear', property='C20', edits=[('MDLIB/ParticleRoutines.c', '''        // do not set default to 0 beause then it can not accumulate, better to identify which markers are new and start to accumulate as we do for the general case (fxx=fyy=1, fxz=fzx=0).
        particles->Fxx[new_ind]           = particles->Fxx[min_index];
        particles->Fxz[new_ind]           = particles->Fxz[min_index];
        particles->Fzx[new_ind]           = particles->Fzx[min_index];
        particles->Fzz[new_ind]           = particles->Fzz[min_index];
    }
    if (model->track_T_P_x_z == 1) {
        particles->T0[new_ind]           = particles->T0[min_index];
        particles->P0[new_ind]           = particles->P0[min_index];
        particles->x0[new_ind]           = particles->x0[min_index];
        particles->z0[new_ind]           = particles->z0[min_index];
        particles->Tmax[new_ind]         = particles->Tmax[min_index];
        particles->Pmax[new_ind]         = particles->Pmax[min_index];
    }
    if (model->anisotropy == 1) {
        // !!!!''', '''        // do not set default to 0 beause then it can not accumulate, better to identify which markers are new and start to accumulate as we do for the general case (fxx=fyy=1, fxz=fzx=0).
        particles->Fxx[new_ind]           = particles->Fxx[min_index];
        particles->Fxz[new_ind]           = particles->Fzx[min_index];
        particles->Fzx[new_ind]           = particles->Fxz[min_index];
        particles->Fzz[new_ind]           = particles->Fzz[min_index];
    }
    if (model->track_T_P_x_z == 1) {
        particles->T0[new_ind]           = particles->T0[min_index];
        particles->P0[new_ind]           = particles->P0[min_index];
        particles->x0[new_ind]           = particles->x0[min_index];
        particles->z0[new_ind]           = particles->z0[min_index];
        particles->Tmax[new_ind]         = particles->Tmax[min_index];
        particles->Pmax[new_ind]         = particles->Pmax[min_index];
    }
    if (model->anisotropy == 1) {
        // !!!!''')],
 needs='finite strain tracking with simple shear, and a cell that loses enough markers to be reseeded', breaks='a reseeded marker inherits the transposed deformation gradient of its parent',
 demo=GRID + r'''int main() { params m = MODEL(6, 6); m.finite_strain = 1; m.anisotropy = 1; grid g = MESH(&m); markers p = MARK(&m, 4);
 p.phase[1] = 1; p.Fxx[1] = 1.1; p.Fxz[1] = 0.7; p.Fzx[1] = -0.2; p.Fzz[1] = 0.9; p.nx[1] = 0.6; p.nz[1] = 0.8;
 AssignMarkerProperties(&p, 3, 1, &m, &g, 1);
 NEAR(p.Fxx[3], 1.1, 0); NEAR(p.Fxz[3], 0.7, 0); NEAR(p.Fzx[3], -0.2, 0); NEAR(p.Fzz[3], 0.9, 0); NEAR(p.nx[3], .6, 0); TRUE(p.phase[3] == 1); DONE; }'''),
dict(id='c21-vertex-surface-height', property='C21', edits=[('MDLIB/FreeSurface.c', 'h += 0.5*(topo.b[i-1] + topo.a[i-1]*mesh->xc_coord[i-1]);', 'h += 0.5*(topo.b[i-1] + topo.a[i]*mesh->xc_coord[i-1]);')],
 needs='a free surface whose slope changes from one cell to the next', breaks='the surface height used to weight the density of a vertex below the surface mixes the slope of one cell with the intercept of its neighbour',
 demo=GRID + r'''int main() { params m = MODEL(6, 6); grid g = MESH(&m); int i; scale s = one(); double a[5] = {0, .1, -.3, .2, .05}, b[5] = {.3, .35, .28, .31, .3}; surface t; memset(&t, 0, sizeof t); t.a = a; t.b = b;
 for (i = 0; i < 36; i++) { g.rho_s[i] = 3.0; g.BCg.type[i] = i/6 > 3 ? 30 : -1; }
 for (i = 0; i < 25; i++) { g.rho_n[i] = 3.0; g.BCp.type[i] = i/5 > 3 ? 30 : i/5 > 2 ? 31 : -1; }
 SurfaceDensityCorrection(&g, m, t, s);
 for (i = 1; i < 5; i++) { double h = .5*(b[i] + a[i]*g.xc_coord[i]) + .5*(b[i-1] + a[i-1]*g.xc_coord[i-1]); NEAR(g.FreeSurfW_s[i + 18], fabs(h - g.zg_coord[3])/m.dz, 1e-9); NEAR(g.rho_s[i + 18], 3*fabs(h - g.zg_coord[3])/m.dz, 1e-9); }
 DONE; }'''),
dict(id='c22-deformation-gradient-alias', property='C22', edits=[('MDLIB/RheologyParticles.c', '        particles->Fzx[k] = fzx*fxx_o + fzz*fzx_o;\n', '        particles->Fzx[k] = fzx*particles->Fxx[k] + fzz*fzx_o;\n')],
 needs='a marker that is both stretched and sheared within the same step', breaks='one component of the deformation gradient is updated from the already updated value of another, so the gradient of the step is not multiplied with the old gradient',
 demo=GRID + r'''void DeformationGradient(grid, scale, params, markers*);
int main() { params m = MODEL(11, 11); m.finite_strain = 1; grid g = MESH(&m); markers p = MARK(&m, 1); int i, j; scale s = one(); m.dt = .2;
 for (j = 0; j < 12; j++) for (i = 0; i < 11; i++) g.u_in[i + j*11] = .3*g.xg_coord[i] + .5*g.zvx_coord[j];
 for (j = 0; j < 11; j++) for (i = 0; i < 12; i++) g.v_in[i + j*12] = .4*g.xvz_coord[i] - .3*g.zg_coord[j];
 p.x[0] = .11; p.z[0] = .07; p.phase[0] = 0; p.Fxx[0] = 1.2; p.Fxz[0] = .3; p.Fzx[0] = -.1; p.Fzz[0] = .9;
 DeformationGradient(g, s, m, &p);
 double gxx = 1 + .06, gxz = .1, gzx = .08, gzz = 1 - .06;
 NEAR(p.Fxx[0], gxx*1.2 + gxz*-.1, 1e-8); NEAR(p.Fxz[0], gxx*.3 + gxz*.9, 1e-8); NEAR(p.Fzx[0], gzx*1.2 + gzz*-.1, 1e-8); NEAR(p.Fzz[0], gzx*.3 + gzz*.9, 1e-8); DONE; }'''),
dict(id='c02-keeps-only-latest', property='C02', edits=[('MDLIB/InputOutput.c', '''        asprintf(&name,     "Breakpoint%05d.dat", step- 2*writer_step);
        asprintf(&command, "mv''', '''        asprintf(&name,     "Breakpoint%05d.dat", step- 1*writer_step);
        asprintf(&command, "mv''')],
 needs='recycling of old checkpoints (delete_breakpoints = 1) and a crash while the next checkpoint is being written', breaks='the most recent complete checkpoint is the one that is renamed and overwritten: a crash during the write loses the newest restart point (and older ones pile up)',
 demo=PRE + r'''void DeletePreviousBreakpoint(int, int);
int main() { FILE *f; f = fopen("Breakpoint00010.dat", "w"); fputs("old", f); fclose(f); f = fopen("Breakpoint00020.dat", "w"); fputs("newest", f); fclose(f);
 DeletePreviousBreakpoint(30, 10); char b[20] = ""; f = fopen("Breakpoint00020.dat", "r"); TRUE(f != NULL); if (f) { fgets(b, 20, f); TRUE(!strcmp(b, "newest")); } TRUE(access("Breakpoint00010.dat", F_OK)); DONE; }'''),
dict(id='c01-director-order', property='C01', edits=[('MDLIB/InputOutput.c', '''        fread( particles->nx         , s3, particles->Nb_part, file);
        fread( particles->nz         , s3, particles->Nb_part, file);''', '''        fread( particles->nz         , s3, particles->Nb_part, file);
        fread( particles->nx         , s3, particles->Nb_part, file);''')],
 needs='an anisotropic model that is restarted from a checkpoint', breaks='the two components of every marker director come back exchanged after a restart',
 demo=GRID + r'''int main() { params m = MODEL(6, 7); m.anisotropy = 1; m.elastic = 1; m.Nt = 3; m.step = 3; m.writer_step = 1; grid g = MESH(&m), h = MESH(&m); markers p = MARK(&m, 9), q = MARK(&m, 9), c, ci; surface t, ti; scale s = one(); int i; memset(&c, 0, sizeof c); memset(&ci, 0, sizeof c); memset(&t, 0, sizeof t); memset(&ti, 0, sizeof t);
 for (i = 0; i < 9; i++) { p.nx[i] = .1*i + .01; p.nz[i] = -.05*i + .7; p.x[i] = .01*i; p.phase[i] = i % 2; p.sxxd[i] = i + .5; }
 MakeBreakpointParticles(&p, &g, &c, &ci, m, &t, &ti, s); m.irestart = 1;
 LoadBreakpointParticles(&q, &h, &c, &ci, &m, &t, &ti, s);
 for (i = 0; i < 9; i++) { NEAR(q.nx[i], .1*i + .01, 1e-12); NEAR(q.nz[i], -.05*i + .7, 1e-12); NEAR(q.x[i], .01*i, 1e-12); NEAR(q.sxxd[i], i + .5, 1e-12); TRUE(q.phase[i] == i % 2); } DONE; }'''),
dict(id='c03-baselevel-unit', property='C03', edits=[('MDLIB/InputOutput.c', 'ReadDou2( fin, "surf_baselev",    0.0 ) / scaling.L;', 'ReadDou2( fin, "surf_baselev",    0.0 ) / scaling.V;')],
 needs='surface processes with a non-zero base level and a length scale that differs from the velocity scale', breaks='the base level of sedimentation is divided by the velocity scale instead of the length scale',
 demo=PRE + r'''int main() { FILE *f = fopen("in.txt", "w"); fputs("eta = 1e22\nL = 1e4\nV = 1e-9\nT = 100\nNx = 11\nNz = 11\nxmin = -1e4\nxmax = 1e4\nzmin = -1e4\nzmax = 1e4\nNt = 1\nNx_part = 4\nNz_part = 4\ndt = 1e10\nsurf_baselev = -2500.0\nsurf_Winc = 300.0\nNb_phases = 1\nID = 0\nrho = 2700 / m\nG = 1e10 / m\ncstv = 1 / m\npwlv = 0 / m\nlinv = 0 / m\neta0 = 1e20 / m\nend = 1 / m\n", f); fclose(f);
 Input in = ReadInputFile("in.txt"); NEAR(in.model.surf_baselev, -0.25, 1e-12); NEAR(in.model.surf_Winc, 0.03, 1e-12); DONE; }'''),
dict(id='c10-rotated-rectangle', property='C10', edits=[('MDLIB/Setup.c', 'const double wZ = coordinates.x * sin(rectangle.angle) + coordinates.z * cos(rectangle.angle);', 'const double wZ = coordinates.x * sin(rectangle.angle) - coordinates.z * cos(rectangle.angle);')],
 needs='a rectangle that is not centred on z = 0 or is rotated', breaks='points are tested against the mirror image of the requested rectangle',
 demo=PRE + r'''int main() { Rectangle r = {.centreX = 0, .centreZ = 2e3, .sizeX = 2e3, .sizeZ = 1e3, .angle = 0}; Coordinates a = {.x = .05, .z = .21}, b = {.x = .05, .z = -.21};
 TRUE(IsRectangleCoordinates(a, r, 1e4)); TRUE(!IsRectangleCoordinates(b, r, 1e4)); DONE; }'''),
dict(id='c14-melting-divergence-weight', property='C14', edits=[('MDLIB/MeltingRoutines.c', 'mesh->divth_n[c0]  += mesh->phase_perc_n[p][c0]*divth;', 'mesh->divth_n[c0]  += divth;')],
 needs='a cell that contains more than one phase, with thermal expansion as a mass source', breaks='the thermal expansion of every phase present is counted in full instead of in proportion to its share of the cell',
 demo=GRID + r'''int main() { params m = MODEL(5, 5); grid g = MESH(&m); static mat_prop M; scale s = one(); markers p = MARK(&m, 1); int i; M.alp[0] = .1; M.alp[1] = .3; M.rho[0] = 2; M.rho[1] = 4;
 for (i = 0; i < 16; i++) { g.phase_perc_n[0][i] = .25; g.phase_perc_n[1][i] = .75; g.rho_n[i] = 3; g.T[i] = 2; g.T0_n[i] = 1.5; }
 MassSourceTerm(&g, &p, &M, &m, &s); for (i = 0; i < 16; i++) NEAR(g.divth_n[i], (.25*.2 + .75*1.2)/3*.5/m.dt, 1e-10); DONE; }'''),
dict(id='c16-reference-pressure', property='C16', edits=[('MDLIB/RheologyDensity.c', '(1.0 +  beta * (P - P0) ); // EOS general', '(1.0 +  beta * P ); // EOS general')],
 needs='density model 1 with a non-zero reference pressure', breaks='compression is measured from zero pressure instead of from the reference pressure of the material',
 demo=PRE + r'''int main() { static mat_prop M; params m; memset(&m, 0, sizeof m); M.density_model[3] = 1; M.rho[3] = 2700; M.drho[3] = 300; M.T0[3] = 10; M.alp[3] = 1e-3; M.P0[3] = 50; M.bet[3] = 2e-3;
 NEAR(EvaluateDensity(3, 30, 80, .5, 0, &m, &M), 2850*(1 - .02)*(1 + .06), 1e-10); DONE; }'''),
dict(id='c17-downward-velocity', property='C17', edits=[('MDLIB/AdvectionRoutines.c', 'vmin = MAXV(fabs(minVx), fabs(minVz));\n    vmax = MAXV(fabs(vmax),  fabs(vmin));\n    \n    if (model->constant_dt == 0) {', 'vmin = MAXV(fabs(minVx), fabs(minVx));\n    vmax = MAXV(fabs(vmax),  fabs(vmin));\n    \n    if (model->constant_dt == 0) {')],
 needs='a flow whose largest speed is a downward velocity (a sinker), with an adaptive time step', breaks='the Courant limit ignores downward motion, so markers move further than the allowed fraction of a cell',
 demo=GRID + r'''int main() { params m = MODEL(6, 6); grid g = MESH(&m); scale s = one(); double vx[42], vz[42]; int i; for (i = 0; i < 42; i++) { vx[i] = .1; vz[i] = .05; } vz[17] = -4.0;
 m.constant_dt = 0; m.Courant = .5; m.dt0 = 10; m.dt = 10; m.dt_max = 1e20; m.dt_min = 1e-20; m.dt_start = 10; m.dt_reduction_factor = 1; m.user1 = 1; m.elastic = 0;
 EvaluateCourantCriterion(vx, vz, &m, s, &g, 1); NEAR(m.dt, .5*.4/4.0, 1e-10); DONE; }'''),
dict(id='c28-empty-row', property='C28', edits=[('MDLIB/SparseTools.c', '        m += off;\n        p += 1;', '        m += off;\n        if (off > 0) p += 1;')],
 needs='a matrix with an empty row', breaks='rows after an empty row are numbered one too low when a compressed matrix is expanded to triplets',
 demo=PRE + r'''int main() { int R[5] = {0, 2, 2, 3, 5}, T[5] = {9, 9, 9, 9, 9}; DecompressCSRtoTriplets(4, R, T); TRUE(T[0] == 0 && T[1] == 0 && T[2] == 2 && T[3] == 3 && T[4] == 3); DONE; }'''),
dict(id='c11-surface-pressure-row', property='C11', edits=[('MDLIB/StokesAssemblyDecoupled.c', 'if (NODE_TYPE == 0 || NODE_TYPE == 31 || NODE_TYPE == 11 || NODE_TYPE == 13) {', 'if (NODE_TYPE == 0 || NODE_TYPE == 11 || NODE_TYPE == 13) {')],
 needs='a free surface: an equation whose stencil touches a cell in the air', breaks='a prescribed value in the air is entered as an unknown of the matrix instead of being moved to the right-hand side',
 demo=PRE + r'''int main() { int J[4] = {-7, -7, -7, -7}, n = 1; double A[4] = {0}, R[3] = {1, 1, 1}; AddCoeff3(J, A, 2, -1, &n, 4.0, 31, 0.5, R); TRUE(n == 1); NEAR(R[2], 1 - 2.0, 1e-14); TRUE(J[1] == -7);
 AddCoeff3(J, A, 1, 5, &n, 3.0, -1, 0.5, R); TRUE(n == 2 && J[1] == 5); NEAR(A[1], 3, 0); DONE; }'''),
dict(id='c08-east-temperature-bc-size', property='C08', edits=[], needs='a grid with more rows than columns', breaks='', demo=''),
dict(id='c26-aspect-ratio', property='C26', edits=[('MDLIB/RheologyParticles.c', 'U0xz = 1/t*CGxz;', 'U0xz = CGxz;')],
 needs='a marker with a sheared deformation gradient', breaks='the off-diagonal component of the stretch tensor is not normalised, so the finite-strain aspect ratio that drives the anisotropy is wrong',
 demo=GRID + r'''int main() { params m = MODEL(6, 6); m.finite_strain = 1; m.anisotropy = 1; grid g = MESH(&m); markers p = MARK(&m, 25); scale s = one(); int i; for (i = 0; i < 25; i++) { p.x[i] = g.xc_coord[i % 5]; p.z[i] = g.zc_coord[i/5]; p.phase[i] = 0; p.Fxx[i] = 1; p.Fxz[i] = 1.5; p.Fzx[i] = 0; p.Fzz[i] = 1; }
 FiniteStrainAspectRatio(&g, s, m, &p); double e = (1.5 + sqrt(1.5*1.5 + 4))/2; for (i = 0; i < 25; i++) NEAR(g.FS_AR_n[i], e*e, 1e-8); DONE; }'''),
dict(id='c27-vz-index', property='C27', edits=[('MDLIB/GridRoutines.c', '            mesh->kvz[kk] = k;\n            mesh->lvz[kk] = l;', '            mesh->kvz[kk] = k;\n            mesh->lvz[kk] = kk / (mesh->Nz+1);')],
 needs='a grid with different numbers of rows and columns', breaks='the row number of vertical-velocity nodes is computed with the wrong row length',
 demo=GRID + r'''int main() { params m = MODEL(7, 12); grid g = MESH(&m); int i, j; for (j = 0; j < 12; j++) for (i = 0; i < 8; i++) TRUE(g.kvz[i + 8*j] == i && g.lvz[i + 8*j] == j); DONE; }'''),
dict(id='c15-smooth-softening', property='C15', edits=[('MDLIB/RheologyDensity.c', "C         = C * dcoh / C0 + materials.C_end[p];", "C         = C * dcoh / C0 + materials.C[p];")],
 needs='error-function softening of the cohesion', breaks='softened cohesion tends to the initial instead of the final cohesion plus the decrement',
 demo=PRE + r'''void Softening(int, double**, double*, double*, double*, double, params, mat_prop, int, int);
int main() { static mat_prop M; params m; memset(&m, 0, sizeof m); m.Nb_phases = 1; double w = 1, *pp[1] = {&w}, d = 0, f = 0, c = 0; M.C[0] = 5; M.C_end[0] = 2; M.phi[0] = .5; M.phi_end[0] = .1; M.coh_soft[0] = 1; M.pls_start[0] = .5; M.pls_end[0] = 1;
 Softening(0, pp, &d, &f, &c, 50.0, m, M, 1, 0); NEAR(c, 2.0, 1e-3); c = 0; Softening(0, pp, &d, &f, &c, 0.0, m, M, 1, 0); NEAR(c, 5.0, 1e-3); DONE; }'''),
]
RUN = PRE + r'''
#include <sys/wait.h>
#include <hdf5.h>
/* template model: square box, pure shear, inclusion; keys given in extra come first and win (the reader takes the first match) */
static void INPUT(const char *name, const char *extra, const char *mat) {
  FILE *f = fopen(name, "w"); int k;
  fprintf(f, "%s\nistep = 000001\nirestart = 0\nwriter = 1\nwriter_step = 1\nwriter_markers = 0\nwriter_debug = 0\nwriter_subfolder = out\neta = 1\nL = 1\nV = 1\nT = 1\nNx = 11\nNz = 11\nxmin = -5.0e-1\nzmin = -5.0e-1\nxmax = 5.0e-1\nzmax = 5.0e-1\nNx_part = 4\nNz_part = 4\nNt = 1\nconstant_dt = 1\nCourant = 0.3\ndt = 0.01\nRK = 4\nnoisy = 0\npenalty = 1e5\nlin_solver = -1\ndiag_scaling = 0\nlin_abs_div = 1e-9\nlin_rel_div = 1e-9\nlin_abs_mom = 1e-11\nlin_rel_mom = 1e-11\nNewton = 0\nline_search = 0\nnit_max = 2\nnonlin_abs_mom = 1e-9\nnonlin_rel_mom = 1e-9\nnonlin_abs_div = 1e-9\nnonlin_rel_div = 1e-9\nmin_eta = 1e-3\nmax_eta = 1e6\nelastic = 0\nfree_surface = 0\nadvection = 0\npure_shear_ALE = 1\nbkg_strain_rate = 1\nuser0 = 1\nuser1 = 0.1\ngx = 0\ngz = 0\nNb_phases = 2\n", extra);
  for (k = 0; k < 2; k++) fprintf(f, "ID = %d\n%s\nrho = 2700\nG = 1\nCp = 1050\nk = 2.5\nQr = 0\nC = 1e90\nphi = 30\nSlim = 1e100\nalp = 0\nbet = 1e-11\ndrho = 0\ncstv = 1\npwlv = 0\nlinv = 0\ngbsv = 0\nexpv = 0\ngsel = 0\neta0 = %s\nnpwl = 3.0\nQpwl = 0\n", k, mat, k ? "10" : "1");
  fclose(f); }
static int PH(MdoodzInput *m, Coordinates c) { return c.x*c.x + c.z*c.z < .04; }
static double RHO(MdoodzInput *m, Coordinates c, int p) { return m->materials.rho[p]; }
static int RUNIT(const char *dir, const char *extra, const char *mat) {
  int st; fflush(stdout); mkdir(dir, 0755);
  pid_t c = fork();
  if (c == 0) { static SetParticles_ff sp; static SetBCs_ff sb; static MdoodzSetup su; if (chdir(dir)) _exit(77); freopen("log", "w", stdout); INPUT("in.txt", extra, mat);
    sp.SetPhase = PH; sp.SetDensity = RHO; sb.SetBCVx = SetPureOrSimpleShearBCVx; sb.SetBCVz = SetPureOrSimpleShearBCVz; su.SetParticles = &sp; su.SetBCs = &sb; RunMDOODZ("in.txt", &su); fflush(stdout); _exit(0); }
  waitpid(c, &st, 0); return WIFEXITED(st) ? WEXITSTATUS(st) : 200 + WTERMSIG(st); }
static float *GET(const char *file, const char *ds, int *n) {
  hid_t f = H5Fopen(file, H5F_ACC_RDONLY, H5P_DEFAULT); if (f < 0) { printf("MISMATCH cannot open %s\n", file); bad = 1; DONE; }
  hid_t d = H5Dopen(f, ds, H5P_DEFAULT); hid_t s = H5Dget_space(d); *n = H5Sget_simple_extent_npoints(s); float *x = malloc(*n*sizeof(float)); H5Dread(d, H5T_NATIVE_FLOAT, H5S_ALL, H5S_ALL, H5P_DEFAULT, x); H5Dclose(d); H5Fclose(f); return x; }
'''
SEEDS += [
dict(id='c04-volumetric-energy', property='C04', edits=[('MDLIB/InputOutput.c', 'scale->rhoE = scale->J / scale->m * scale->rho;', 'scale->rhoE = scale->J / scale->m / scale->T * scale->rho;')],
 needs='a temperature scale other than one and a model with heat production', breaks='the scale of the volumetric energy carries a temperature it should not have',
 demo=PRE + r'''int main() { scale s; memset(&s, 0, sizeof s); s.eta = 3e20; s.L = 2e4; s.V = 5e-10; s.T = 700; ScaleMe(&s); NEAR(s.t, 4e13, 1e-12); NEAR(s.S, 3e20/4e13, 1e-12); NEAR(s.J, s.S*8e12, 1e-12); NEAR(s.W, s.J/s.t, 1e-12); NEAR(s.k, s.W/s.L/s.T, 1e-12); NEAR(s.Cp, s.J/s.m/s.T, 1e-12); NEAR(s.rhoE, s.S, 1e-12); NEAR(s.F, s.S*s.L*s.L, 1e-12); DONE; }'''),
dict(id='c07-gbs-grain-size-unit', property='C07', edits=[('MDLIB/FlowLaws.c', 'mat->Agbs[k]   /= (pow(scaling->S, -mat->ngbs[k]) * pow(scaling->S, -mat->rgbs[k]) * pow(scaling->L, mat->mgbs[k]) / scaling->t);', 'mat->Agbs[k]   /= (pow(scaling->S, -mat->ngbs[k]) * pow(scaling->S, -mat->rgbs[k]) * pow(scaling->L, mat->ngbs[k]) / scaling->t);')],
 needs='grain boundary sliding with a length scale other than one', breaks='the prefactor of grain boundary sliding is scaled with the stress exponent instead of the grain size exponent',
 demo=PRE + r'''int main() { static mat_prop M; params m; memset(&m, 0, sizeof m); scale s = one(); s.L = 1e3; s.t = 1e10; s.S = 1e7; s.J = 1e5; ReadDataGBS(&M, &m, 2, 41, &s); NEAR(M.Agbs[2], 4.7e-23*pow(1e7, 3.5)*pow(1e3, -2.0)*1e10, 1e-10); NEAR(M.Qgbs[2], 6.0, 1e-12); NEAR(M.mgbs[2], 2, 0); DONE; }'''),
dict(id='c08-anisotropy-angle-kept', property='C08', edits=[('MDLIB/MemoryAllocFree.c', '''        DoodzFree(particles->nz);
        if (model->marker_aniso_angle) {
          DoodzFree(particles->aniso_angle);
        }''', '''        DoodzFree(particles->nz);
        if (model->marker_aniso_angle && model->finite_strain) {
          DoodzFree(particles->aniso_angle);
        }''')],
 needs='anisotropy with marker angles but without finite strain', breaks='the marker angles are never released in that combination of options',
 demo=PRE + r'''int main() { int f; params m; memset(&m, 0, sizeof m); m.anisotropy = 1; m.marker_aniso_angle = 1; m.Nx = m.Nz = 6; ParticlesInput p; memset(&p, 0, sizeof p); p.Nx_part = p.Nz_part = 4; p.Nb_part = 100; p.Nb_part_max = 5000; setvbuf(stdout, 0, _IONBF, 0); printf("start\n");
 for (f = 0; f < 2; f++) { m.finite_strain = f; markers a = PartAlloc(p, &m); PartFree(&a, &m); size_t b = mallinfo2().uordblks + mallinfo2().hblkhd; a = PartAlloc(p, &m); PartFree(&a, &m); TRUE(mallinfo2().uordblks + mallinfo2().hblkhd == b); } DONE; }'''),
dict(id='c09-negative-flow-law', property='C09', edits=[('MDLIB/FlowLaws.c', 'if ( success==0 ) { printf("Error: Non existing GBS flow law number\\n"); exit(12);}', 'if ( success==0 && number>0 ) { printf("Error: Non existing GBS flow law number\\n"); exit(12);}')],
 needs='an unknown flow law given with a negative number (correction factor cancelled)', breaks='an unknown flow law is accepted silently and the phase deforms with a zero prefactor',
 demo=PRE + r'''#include <sys/wait.h>
static int st(int n) { int s; fflush(stdout); pid_t c = fork(); if (!c) { static mat_prop M; params m; memset(&m, 0, sizeof m); scale o = one(); ReadDataGBS(&M, &m, 0, n, &o); _exit(0); } waitpid(c, &s, 0); return WIFEXITED(s) ? WEXITSTATUS(s) : -1; }
int main() { TRUE(st(41) == 0); TRUE(st(-40) == 0); TRUE(st(7) > 0); TRUE(st(-7) > 0); DONE; }'''),
dict(id='c12-tangent-component', property='C12', edits=[('MDLIB/StokesRoutines.c', 'mesh->D14_n[k] =                                   2.0*detadp  *Dxx - K*dt*ddivpdp', 'mesh->D14_n[k] =                                   2.0*detadp  *Dzz - K*dt*ddivpdp')],
 needs='Newton iterations with a rheology whose viscosity depends on the pressure', breaks='the derivative of the horizontal stress by the pressure uses the wrong strain-rate component',
 demo=GRID + r'''static double OP(double xx, double zz, int which) { params m = MODEL(6, 6); static mat_prop M; scale s = one(); grid g = MESH(&m); int k; m.elastic = 0; m.anisotropy = 0; m.min_eta = 1e-9; m.max_eta = 1e9; m.Newton = 1; m.Nb_phases = 1; m.eta_average = 0;
 M.pwlv[0] = 1; M.npwl[0] = 3; M.Apwl[0] = 1; M.Fpwl[0] = 1; M.Qpwl[0] = 1; M.Vpwl[0] = 4; M.pref_pwl[0] = 1; M.R = .01; M.G[0] = 1; M.bet[0] = 1; M.rho[0] = 1; M.C[0] = 1e30; M.Slim[0] = 1e30;
 for (k = 0; k < 25; k++) { g.T[k] = 1; g.p_in[k] = 1; g.mu_n[k] = 1; g.bet_n[k] = 1; g.eta_n[k] = 1; g.exxd[k] = xx; g.ezzd[k] = zz; g.exz_n[k] = .2; g.phase_perc_n[0][k] = 1; g.C_n[k] = 1e30; g.d0_n[k] = 1; }
 for (k = 0; k < 36; k++) { g.BCg.type[k] = 30; }
 RheologicalOperators(&g, &m, &M, &s, 1, 0); return which ? g.D24_n[7] : g.D14_n[7]; }
int main() { double a = OP(.7, -.4, 0), b = OP(-.4, .7, 1), c = OP(.7, -.4, 1), d = OP(-.4, .7, 0); printf("%g %g %g %g\n", a, b, c, d);
 /* exchanging the axes exchanges the two rows */ TRUE(fabs(a) > 1e-6); TRUE(fabs(a - b) < 1e-4*fabs(a)); TRUE(fabs(c - d) < 1e-4*fabs(c)); DONE; }'''),
dict(id='c13-surface-cell-pressure', property='C13', edits=[('MDLIB/StokesRoutines.c', "if ( mesh->BCp.type[cc] != 30 && mesh->BCp.type[cc] != 0  && mesh->BCp.type[cc] != 31 ) {\n            mesh->p_in[cc] =  mesh->p_in[cc] + alpha*dx[Stokes->eqn_p[cc]];", "if ( mesh->BCp.type[cc] != 30 && mesh->BCp.type[cc] != 0 ) {\n            mesh->p_in[cc] =  mesh->p_in[cc] + alpha*dx[Stokes->eqn_p[cc]];")],
 needs='a free surface: cells just above it have no equation', breaks='the pressure of surface cells, which have no equation, is updated with the correction of another unknown',
 demo=GRID + r'''int main() { params m = MODEL(6, 6); grid g = MESH(&m); SparseMat S; memset(&S, 0, sizeof S); int k, n = 0; S.eqn_u = malloc(42*4); S.eqn_v = malloc(42*4); S.eqn_p = malloc(25*4); double dx[200];
 for (k = 0; k < 42; k++) { S.eqn_u[k] = n++; g.u_in[k] = k; } for (k = 0; k < 42; k++) { S.eqn_v[k] = n++; g.v_in[k] = 2*k; } for (k = 0; k < 25; k++) { S.eqn_p[k] = n++; g.p_in[k] = 3*k; } for (k = 0; k < n; k++) dx[k] = .5 + k;
 g.BCp.type[7] = 31; S.eqn_p[7] = 0; g.BCp.type[8] = 30; g.BCp.type[9] = 0; ExtractSolutions2(&S, &g, &m, dx, -.5);
 NEAR(g.p_in[7], 21, 0); NEAR(g.p_in[8], 24, 0); NEAR(g.p_in[9], 27, 0); NEAR(g.p_in[10], 30 - .5*(.5 + 94), 1e-12); NEAR(g.u_in[5], 5 - .5*5.5, 1e-12); NEAR(g.v_in[5], 10 - .5*(.5 + 47), 1e-12); DONE; }'''),
dict(id='c23-stagnation-unseen', property='C23', edits=[('MDLIB/StokesRoutines.c', '            printf("Stagnating...\\n!");\n            Nmodel->stagnated = 1;', '            printf("Stagnating...\\n!");\n            Nmodel->stagnated = model->safe_mode;')],
 needs='line search with a tolerance the solver cannot reach, without the safe mode', breaks='stagnation of the nonlinear solver goes unnoticed: the same step is tried until the iteration limit',
 demo=RUN + r'''int main() { int r = RUNIT("a", "line_search = 1\nnit_max = 40\nnonlin_abs_mom = 1e-40\nnonlin_rel_mom = 1e-40\nnonlin_abs_div = 1e-40\nnonlin_rel_div = 1e-40\n", ""); TRUE(r == 0); char b[4096]; int n = 0; FILE *f = fopen("a/log", "r"); TRUE(f != 0); if (f) while (fgets(b, sizeof b, f)) if (strstr(b, "Stagnating")) n++; printf("%d stagnating steps\n", n); TRUE(n == 1); DONE; }'''),
dict(id='c24-max-temperature-late', property='C24', edits=[('MDLIB/Main_DOODZ.c', '''        if (input.model.track_T_P_x_z == 1) UpdateMaxPT(input.scaling, input.model, &particles );
''', ''), ('MDLIB/Main_DOODZ.c', '''        UpdateParticlePhi( &mesh, input.scaling, input.model, &particles, &input.materials );
''', '''        UpdateParticlePhi( &mesh, input.scaling, input.model, &particles, &input.materials );
        if (input.model.track_T_P_x_z == 1) UpdateMaxPT( input.scaling, input.model, &particles );
''')],
 needs='tracking of peak temperature in a model that heats up', breaks='the peak temperature is recorded before the temperature of the step is known, so it lags behind the temperature by one step',
 demo=RUN + r'''int main() { int n, k; int r = RUNIT("a", "track_T_P_x_z = 1\nthermal = 1\nNt = 1\n", "Qr = 1e11\n"); TRUE(r == 0); float *T = GET("a/out/Output00001.gzip.h5", "/Centers/T", &n), *M = GET("a/out/Output00001.gzip.h5", "/Centers/Tmax", &n), hi = 0; for (k = 0; k < n; k++) { if (T[k] > hi) hi = T[k]; }
 for (k = 0; k < n; k++) { if (T[k] - M[k] > 0.01*fabs(T[k])) { printf("cell %d T %g Tmax %g\n", k, T[k], M[k]); bad = 1; } } printf("T up to %g\n", hi); DONE; }'''),
dict(id='c25-clock-noise', property='C25', edits=[('MDLIB/ParticleRoutines.c', '''                                random_x = (double)rand()/(double)RAND_MAX;
                                random_z = (double)rand()/(double)RAND_MAX;
                                random_x = ((2*random_x)-1)*dx_particles*noise;''', '''                                if (np == 0) srand((unsigned) clock());
                                random_x = (double)rand()/(double)RAND_MAX;
                                random_z = (double)rand()/(double)RAND_MAX;
                                random_x = ((2*random_x)-1)*dx_particles*noise;''')],
 needs='initial marker noise in a model with a free surface', breaks='the marker positions, and with them the run, differ from one start to the next',
 demo=GRID + r'''#include <time.h>
#include <sys/wait.h>
static double SUM(int wait) { int fd[2]; double r = 0; fflush(stdout); pipe(fd); pid_t c = fork(); if (!c) { params m = MODEL(9, 9); grid g = MESH(&m); markers p = MARK(&m, 1024); surface t; markers ch; scale s = one(); int k; memset(&t, 0, sizeof t); memset(&ch, 0, sizeof ch); m.free_surface = 1; m.initial_noise = 1; AllocateMarkerChain(&t, &ch, m);
  volatile double w = 0; clock_t t0 = clock(); if (wait) while (clock() - t0 < CLOCKS_PER_SEC/4) w += 1; for (k = 0; k < 8; k++) { t.b[k] = .3; t.a[k] = 0.; }
  PutPartInBox(&p, &g, m, t, s); for (k = 0; k < p.Nb_part; k++) r += p.x[k]*(k + 1) + p.z[k]*(k % 7); if (p.Nb_part < 10) r = wait; write(fd[1], &r, sizeof r); _exit(0); } close(fd[1]); read(fd[0], &r, sizeof r); waitpid(c, 0, 0); return r; }
int main() { double a = SUM(0), b = SUM(1); printf("%g %g\n", a, b); TRUE(a == b); DONE; }'''),
dict(id='c29-chain-weights', property='C29', edits=[('MDLIB/FreeSurface.c', 'Wm              = DoodzCalloc ( Nx-1, sizeof(double));\n    BmWm            = DoodzCalloc ( Nx-1, sizeof(double));\n    double *heightc', 'Wm              = DoodzMalloc ( (Nx-1)*sizeof(double));\n    BmWm            = DoodzCalloc ( Nx-1, sizeof(double));\n    double *heightc')],
 needs='a free surface and memory that is not zero when it is handed out', breaks='the weights of the surface markers are summed onto whatever the memory contained',
 demo=GRID + r'''int main() { params m = MODEL(9, 6); grid g = MESH(&m); surface t; markers c; scale s = one(); int k; memset(&t, 0, sizeof t); memset(&c, 0, sizeof c); m.free_surface = 1; AllocateMarkerChain(&t, &c, m); c.Nb_part = 80; c.phase = calloc(80, 4); c.x = calloc(80, 8); c.z = calloc(80, 8); c.z0 = calloc(80, 8);
 for (k = 0; k < 80; k++) { c.x[k] = -1 + 2*(k + .5)/80; c.z[k] = .25; } mallopt(M_PERTURB, 0xC0); for (k = 0; k < 50; k++) { double *p = malloc(64); memset(p, 0x3f, 64); free(p); }
 InterpTopoPart2Grid(&t, &c, m, g, s, g.xg_coord, 0); for (k = 0; k < 9; k++) NEAR(t.height[k], .25, 1e-10); DONE; }'''),
dict(id='c30-residuals-left-scaled', property='C30', edits=[('MDLIB/HDF5Output.c', 'ArrayTimesScalar( Mmesh.ru,      1.0/scaling.F,   (model.Nx)*(model.Nz+1) );', 'ArrayTimesScalar( Mmesh.ru,      1.0/scaling.F,   (model.Nx)*(model.Nz) );')],
 needs='debug output of residuals with a force scale other than one', breaks='writing the residuals leaves the last row of the horizontal residual in physical units',
 demo=GRID + r'''int main() { params m = MODEL(6, 7); grid g = MESH(&m); scale s = one(); Nparams N; int k; memset(&N, 0, sizeof N); s.F = 8; s.E = 4; s.rho = 2; s.eta = 16; for (k = 0; k < 48; k++) g.ru[k] = k + 1; for (k = 0; k < 49; k++) g.rv[k] = 2*k + 1; for (k = 0; k < 30; k++) { g.rp[k] = k; g.eta_phys_n[k] = k; }
 WriteResiduals(g, m, N, s); for (k = 0; k < 48; k++) NEAR(g.ru[k], k + 1, 1e-12); for (k = 0; k < 49; k++) NEAR(g.rv[k], 2*k + 1, 1e-12); for (k = 0; k < 30; k++) { NEAR(g.rp[k], k, 1e-12); NEAR(g.eta_phys_n[k], k, 1e-12); } DONE; }'''),
dict(id='c06-top-row-velocity', property='C06', edits=[('MDLIB/HDF5Output.c', 'ScaleBack( CVz, scaling.V, (model.Nx+1)*model.Nz );', 'ScaleBack( CVz, scaling.V, model.Nx*model.Nz );')],
 needs='a velocity scale other than one', breaks='the last nodes of the vertical velocity are written in internal units',
 demo=RUN + r'''int main() { int n, i, j; TRUE(RUNIT("a", "eta = 10\nL = 2\nV = 8\nT = 1\nNx = 11\nNz = 13\n", "eta0 = 10\n") == 0); float *v = GET("a/out/Output00001.gzip.h5", "/VzNodes/Vz", &n); TRUE(n == 12*13);
 for (j = 0; j < 13; j++) for (i = 0; i < 12; i++) if (!(fabs(fabs(v[i + 12*j]) - fabs(-.5 + j/12.)) < 2e-3)) { printf("MISMATCH Vz[%d,%d] = %g\n", i, j, v[i + 12*j]); bad = 1; } DONE; }'''),
]

SEEDS += [
dict(id='c05-lost-partial-sums', property='C05', omp=1, edits=[('MDLIB/ParticleRoutines.c', 'if (centroid==1) mesh->phase_perc_n[p][i] += Wm_ph[k][p][i];', 'if (centroid==1) mesh->phase_perc_n[p][i]  = Wm_ph[k][p][i];')],
 needs='more than one thread', breaks='the phase proportions of a cell keep only the markers that the last thread handled',
 demo=GRID + r'''#include <omp.h>
int main() { params m = MODEL(6, 6); grid g = MESH(&m); markers p = MARK(&m, 400); int k, t, q; double *r[2];
 for (k = 0; k < 400; k++) { p.x[k] = -1 + 2*((k*37) % 400 + .5)/400; p.z[k] = -1 + 2*((k*151) % 400 + .5)/400; p.phase[k] = k % 2; }
 for (t = 0; t < 2; t++) { omp_set_num_threads(t ? 4 : 1); P2Mastah(&m, p, p.T, &g, g.T, g.BCp.type, 0, 0, 1, 1, 1); r[t] = malloc(50*8); for (k = 0; k < 25; k++) for (q = 0; q < 2; q++) r[t][2*k + q] = g.phase_perc_n[q][k]; }
 for (k = 0; k < 50; k++) NEAR(r[1][k], r[0][k], 1e-12); for (k = 0; k < 25; k++) NEAR(r[1][2*k] + r[1][2*k + 1], 1, 1e-12); DONE; }'''),
]
SEEDS = [s for s in SEEDS if s['edits']]
