"""fourth suite of behaviour-preserving edits (other functions, other habits). usage: refactor4.py MDLIBDIR"""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
exec(open(os.path.dirname(os.path.abspath(__file__)) + '/refactor1.py').read().split('# ScaleMe:')[0])
def where(name):
    for f in sorted(os.listdir(D)):
        if f.endswith('.c') and re.search(r'^[A-Za-z_][\w \*]*\b%s\s*\([^;{]*\)\s*\{' % name, open(D + '/' + f).read(), re.M): return f
def E(name, *prs, before=None):
    f = where(name)
    if before: pre(f, name, before)
    fn(f, name, *prs)

# --- EvaluateCourantCriterion: extrema helper over a flat index, ternary factor, swapped tests
E('EvaluateCourantCriterion',
  ('''    for (k=0; k<model->Nx; k++) {
        for (l=0; l<model->Nz+1; l++) {
            c = k + l*model->Nx;
            maxVx = MAXV(maxVx, (Vx[c]));
            minVx = MINV(minVx, (Vx[c]));
        }
    }

    for (k=0; k<model->Nx+1; k++) {
        for (l=0; l<model->Nz; l++) {
            c = k + l*(model->Nx+1);
            maxVz = MAXV(maxVz, (Vz[c]));
            minVz = MINV(minVz, (Vz[c]));
        }
    }
''', '''    VelocityRange( Vx, model->Nx, model->Nz+1, &minVx, &maxVx );
    VelocityRange( Vz, model->Nx+1, model->Nz, &minVz, &maxVz );
'''),
  ('''        double fact = 1.0;

        // Timestep increase factor
        if ( model->elastic == 1 ) {
            fact = 1.25;
        }
        else {
            fact = 2.00;
        }
''', '''        const double fact = model->elastic == 1 ? 1.25 : 2.00;
'''),
  ('''        if (dtc > fact*model->dt0 ) {
            dtc = fact*model->dt0;
''', '''        const double dt_cut = fact*model->dt0;
        if (dt_cut < dtc) {
            dtc = dt_cut;
'''), before='''static void VelocityRange( const double *V, int n1, int n2, double *lo, double *hi ) {
    int i, j;
    for (j=0; j<n2; j++) {
        const double *row = V + j*n1;
        for (i=0; i<n1; i++) {
            if (row[i] > *hi) *hi = row[i];
            if (row[i] < *lo) *lo = row[i];
        }
    }
}
''')

# --- DefineInitialTimestep: early continue, relaxation time computed once
E('DefineInitialTimestep',
  ('''        if ( mesh->BCg.type[k] != 30 ) {
            if ( mesh->eta_s[k]/mesh->mu_s[k] < minMaxwell ) {
                minMaxwell = mesh->eta_s[k]/mesh->mu_s[k];
            }
            if ( mesh->eta_s[k]/mesh->mu_s[k] > maxMaxwell ) {
                maxMaxwell = mesh->eta_s[k]/mesh->mu_s[k];
            }
        }
''', '''        if ( mesh->BCg.type[k] == 30 ) continue;
        const double tM = mesh->eta_s[k]/mesh->mu_s[k];
        minMaxwell = tM < minMaxwell ? tM : minMaxwell;
        maxMaxwell = tM > maxMaxwell ? tM : maxMaxwell;
'''),
  ('''        model->dt = dt_maxwell;
        model->dt0 = model->dt;
''', '''        model->dt0 = dt_maxwell;
        model->dt  = dt_maxwell;
'''))

# --- UpdateMaxPT: helper
E('UpdateMaxPT',
  ('''        if (particles->T[k] > particles->Tmax[k] ) particles->Tmax[k] = particles->T[k];
        if (particles->P[k] > particles->Pmax[k] ) particles->Pmax[k] = particles->P[k];
''', '''        KeepMax( &particles->Pmax[k], particles->P[k] );
        KeepMax( &particles->Tmax[k], particles->T[k] );
'''), before='''static void KeepMax( double *m, double v ) {
    if (*m < v) *m = v;
}
''')

# --- TransmutateMarkers: predicate split, target once
E('TransmutateMarkers',
  ('''    if ((transmutation == -1 && materials->transmutation_temperature[phase] >= temperature)
        || (transmutation == 1 && materials->transmutation_temperature[phase] <= temperature)) {
      particles->phase[k] = materials->transmutation_phase[phase];
      particles->dual[k] = materials->transmutation_phase[phase];
      transmutated_particles++;
    }
''', '''    const double limit = materials->transmutation_temperature[phase];
    int change = 0;
    if (transmutation == 1)       change = temperature >= limit;
    else if (transmutation == -1) change = temperature <= limit;
    if (!change) continue;
    const int target = materials->transmutation_phase[phase];
    particles->dual[k]  = target;
    particles->phase[k] = target;
    transmutated_particles += 1;
'''))

# --- UpdateParticlePressure: increment helper, early return, positive difference
E('UpdateParticlePressure',
  ('''        mesh->dp[c0] = 0.0;
        if (mesh->BCp.type[c0] != 30 ) {
            mesh->dp[c0] = (mesh->p_in[c0]-mesh->p0_n[c0]);
        }
''', '''        mesh->dp[c0] = mesh->BCp.type[c0] == 30 ? 0.0 : mesh->p_in[c0] - mesh->p0_n[c0];
'''),
  ('''                dtm       = etam[k]/ (materials->bet[p]);
                dPms[k]   = -( particles->P[k] - Pm0[k]) * (1.0 - exp(-d*model.dt/dtm));
''', '''                const double decay = exp(-d*model.dt * materials->bet[p]/etam[k]);
                dPms[k]   = ( Pm0[k] - particles->P[k]) * (1.0 - decay);
'''),
  ('''            if (particles->phase[k] != -1) particles->P[k] = particles->P[k] + dPms[k] + dPmr[k];
''', '''            if (particles->phase[k] == -1) continue;
            particles->P[k] += dPms[k] + dPmr[k];
'''))

# --- UpdateParticleEnergy: one test for both updates, hoisted factor
E('UpdateParticleEnergy',
  ('''            if (particles->phase[k] != -1) T_inc_mark[k]    = dTms[k] + dTmr[k];
            if (particles->phase[k] != -1) particles->T[k]  = particles->T[k] + T_inc_mark[k];
''', '''            if (particles->phase[k] != -1) {
                T_inc_mark[k]    = dTms[k] + dTmr[k];
                particles->T[k] += T_inc_mark[k];
            }
'''),
  ('''                p = particles->phase[k];
                dtm     = materials->Cp[p] * rho_part[k]/ (materials->k[p] * (1.0/dx/dx + 1.0/dz/dz));
                dTms[k] = -( particles->T[k] - Tm0[k] ) * (1.0-exp(-d*model.dt/dtm));
''', '''                p = particles->phase[k];
                const double w = 1.0/(dx*dx) + 1.0/(dz*dz);
                dtm     = rho_part[k] * materials->Cp[p] / (w * materials->k[p]);
                const double f = 1.0 - exp(-d*model.dt/dtm);
                dTms[k] = f*( Tm0[k] - particles->T[k] );
'''))

# --- P2Mastah: switch on the grid, helper for the weights of a node, column clamp helper, guard continue in the last loop
E('P2Mastah',
  ('''    if (interp_stencil==1) dx_itp =     dx/2.0; // 1-cell
    if (interp_stencil==1) dz_itp =     dz/2.0; // 1-cell
    if (interp_stencil==9) dx_itp = 3.0*dx/2.0; // 9-cell
    if (interp_stencil==9) dz_itp = 3.0*dz/2.0; // 9-cell
''', '''    if (interp_stencil==1) {
        dx_itp = 0.5*dx;
        dz_itp = 0.5*dz;
    }
    else if (interp_stencil==9) {
        dx_itp = 1.5*dx;
        dz_itp = 1.5*dz;
    }
'''),
  ('''                kp = ip + jp*Nx;
                Wm_ph[thread_num][p][kp]  +=          (1.0-dxm/dx_itp)*(1.0-dzm/dz_itp);
                Wm[thread_num][kp]        +=          (1.0-dxm/dx_itp)*(1.0-dzm/dz_itp);
                BmWm[thread_num][kp]      += mark_val*(1.0-dxm/dx_itp)*(1.0-dzm/dz_itp);
''', '''                kp = jp*Nx + ip;
                const double w = (1.0-dxm/dx_itp)*(1.0-dzm/dz_itp);
                Wm_ph[thread_num][p][kp]  += w;
                Wm[thread_num][kp]        += w;
                BmWm[thread_num][kp]      += w*mark_val;
'''),
  ('''                    if ( jp>0 ){
                        kp  = ip + (jp-1)*Nx;
                        dxm = fabs( X_vect[ip]      - particles.x[k]);
                        dzm = fabs( Z_vect[jp] - dz - particles.z[k]);
                        Wm_ph[thread_num][p][kp]  +=          (1.0-dxm/dx_itp)*(1.0-dzm/dz_itp);
                        Wm[thread_num][kp]        +=          (1.0-dxm/dx_itp)*(1.0-dzm/dz_itp);
                        BmWm[thread_num][kp]      += mark_val*(1.0-dxm/dx_itp)*(1.0-dzm/dz_itp);
                    }
''', '''                    if ( jp>=1 ){
                        kp  = ip + jp*Nx - Nx;
                        dxm = fabs( particles.x[k] - X_vect[ip] );
                        dzm = fabs( particles.z[k] - (Z_vect[jp] - dz) );
                        AddWeight( Wm[thread_num], BmWm[thread_num], Wm_ph[thread_num][p], kp, (1.0-dxm/dx_itp)*(1.0-dzm/dz_itp), mark_val );
                    }
'''),
  ('''        if ( fabs(WM[i])<1e-30  || (NodeType[i]==30 || NodeType[i]==31) ) {
        }
        else {
''', '''        if ( !(fabs(WM[i])<1e-30) && NodeType[i]!=30 && NodeType[i]!=31 ) {
'''),
  ('''                NodeField[i] = BMWM[i]/WM[i];
                if (avg==1) {
                    NodeField[i] =  1.0 / NodeField[i];
                }
                if (avg==2) {
                    NodeField[i] =  exp(NodeField[i]);
                }
''', '''                const double mean = BMWM[i]/WM[i];
                if      (avg==1) NodeField[i] = 1.0/mean;
                else if (avg==2) NodeField[i] = exp(mean);
                else             NodeField[i] = mean;
'''),
  ('''            int c1 = l*Nx + Nx-1;
            av = 0.5*(NodeField[c1] + NodeField[l*Nx]);
            NodeField[c1] = av; NodeField[l*Nx] = av;
''', '''            const int cW = l*Nx, cE = cW + Nx-1;
            av = 0.5*(NodeField[cW] + NodeField[cE]);
            NodeField[cW] = NodeField[cE] = av;
'''), before='''static void AddWeight( double *W, double *BW, double *Wp, int c, double w, double v ) {
    W[c]  += w;
    Wp[c] += w;
    BW[c] += v*w;
}
''')

# --- V2P: index helper, corner shorthand
E('V2P',
  ('''        dst    = (particles->x[k]-xg[0]);
        j_part = ceil((dst/dx)) - 1;
        if (j_part<0) {
            j_part = 0;
        }
        if (j_part>Nx-2) {
            j_part = Nx-2;
        }
''', '''        j_part = CellIndex( particles->x[k], xg[0], dx, Nx );
'''),
  ('''        iSW = j_part+i_part*Nx;
        iSE = j_part+i_part*Nx+1;
        iNW = j_part+(i_part+1)*Nx;
        iNE = j_part+(i_part+1)*Nx+1;
''', '''        iSW = j_part+i_part*Nx;
        iSE = iSW + 1;
        iNW = iSW + Nx;
        iNE = iNW + 1;
'''),
  ('''        vxm13 = VSW*(1.0-dxm/dx) + VSE*dxm/dx;
        vxm24 = VNW*(1.0-dxm/dx) + VNE*dxm/dx;
''', '''        const double wx = dxm/dx;
        vxm13 = (1.0-wx)*VSW + wx*VSE;
        vxm24 = (1.0-wx)*VNW + wx*VNE;
'''), before='''static int CellIndex( double x, double x0, double h, int n ) {
    int i = ceil((x-x0)/h) - 1;
    if (i<0)   i = 0;
    if (i>n-2) i = n-2;
    return i;
}
''')

# --- StrainRateComponents: out-of-plane by ternary, mean of the corners by helper, early continue
E('StrainRateComponents',
  ('''  double out_of_plane = 0.0;
  if (model->out_of_plane==1) out_of_plane = 1.0;
''', '''  const double out_of_plane = model->out_of_plane==1 ? 1.0 : 0.0;
'''),
  ('''      mesh->exxd[c0]  = dvxdx - model->compressible*1.0/3.0*mesh->div_u[c0]; // SURE? 
      mesh->ezzd[c0]  = dvzdz - model->compressible*1.0/3.0*mesh->div_u[c0]; // SURE?
''', '''      const double third = model->compressible*mesh->div_u[c0]/3.0;
      mesh->ezzd[c0]  = dvzdz - third;
      mesh->exxd[c0]  = dvxdx - third;
'''),
  ('''    if ( mesh->BCg.type[c1] != 30 ) {
      //            // Original implementation from Duretz et al., 2016''', '''    if ( mesh->BCg.type[c1] == 30 ) continue;
    {
      //            // Original implementation from Duretz et al., 2016'''),
  ('''    mesh->exz_n[c0] = 0.0;
    mesh->wxz_n[c0] = 0.0;

    if ( mesh->BCp.type[c0] != 30 && mesh->BCp.type[c0] != 31 ) {
      if (mesh->BCg.type[c1]      != 30 ) { mesh->exz_n[c0] += 0.25*mesh->exz[c1];      }
      if (mesh->BCg.type[c1+1]    != 30 ) { mesh->exz_n[c0] += 0.25*mesh->exz[c1+1];    }
      if (mesh->BCg.type[c1+Nx]   != 30 ) { mesh->exz_n[c0] += 0.25*mesh->exz[c1+Nx];   }
      if (mesh->BCg.type[c1+Nx+1] != 30 ) { mesh->exz_n[c0] += 0.25*mesh->exz[c1+Nx+1]; }
      if (mesh->BCg.type[c1]      != 30 ) { mesh->wxz_n[c0] += 0.25*mesh->wxz[c1];      }
      if (mesh->BCg.type[c1+1]    != 30 ) { mesh->wxz_n[c0] += 0.25*mesh->wxz[c1+1];    }
      if (mesh->BCg.type[c1+Nx]   != 30 ) { mesh->wxz_n[c0] += 0.25*mesh->wxz[c1+Nx];   }
      if (mesh->BCg.type[c1+Nx+1] != 30 ) { mesh->wxz_n[c0] += 0.25*mesh->wxz[c1+Nx+1]; }
    }
''', '''    const int below = mesh->BCp.type[c0] != 30 && mesh->BCp.type[c0] != 31;
    mesh->exz_n[c0] = below ? CornerMean( mesh, mesh->exz, c1, Nx ) : 0.0;
    mesh->wxz_n[c0] = below ? CornerMean( mesh, mesh->wxz, c1, Nx ) : 0.0;
'''), before='''static double CornerMean( const grid *mesh, const double *f, int c, int Nx ) {
    double s = 0.0;
    if (mesh->BCg.type[c]      != 30) s += f[c];
    if (mesh->BCg.type[c+1]    != 30) s += f[c+1];
    if (mesh->BCg.type[c+Nx]   != 30) s += f[c+Nx];
    if (mesh->BCg.type[c+Nx+1] != 30) s += f[c+Nx+1];
    return 0.25*s;
}
''')

# --- FindClosestPhase: squared distances (positive), coordinates hoisted
E('FindClosestPhase',
  ('''    min_dst = 20.0*sqrt( pow( mesh.dx, 2.0) + pow( mesh.dz, 2.0) );
''', '''    const double x = particles->x[new_ind], z = particles->z[new_ind];
    min_dst = 20.0*sqrt( mesh.dx*mesh.dx + mesh.dz*mesh.dz );
'''),
  ('''        dst = sqrt( pow (particles->x[new_ind] - particles->x[ind_list[ind]], 2.0) + pow(particles->z[new_ind] - particles->z[ind_list[ind]], 2.0) );

        if (dst<min_dst) {
            min_dst = dst;
            min_index = ind_list[ind];
        }
''', '''        const int    m  = ind_list[ind];
        const double ex = x - particles->x[m], ez = z - particles->z[m];
        dst = sqrt( ex*ex + ez*ez );
        if (dst >= min_dst) continue;
        min_index = m;
        min_dst   = dst;
'''))

# --- AddPartVert: one helper for the four markers
E('AddPartVert',
  ('''            new_ind = particles->Nb_part;
            particles->Nb_part++;
            //            }

            particles->x[new_ind]      = new_x;
            particles->z[new_ind]      = new_z;
            FindClosestPhaseVertex( particles, ic, jc, mesh, ind_list, new_ind, nb_neigh, &model );
''', '''            new_ind = NewMarker( particles, new_x, new_z );
            FindClosestPhaseVertex( particles, ic, jc, mesh, ind_list, new_ind, nb_neigh, &model );
'''),
  ('''            new_ind = particles->Nb_part;
            particles->Nb_part++;
            //            }

            particles->x[new_ind]      = new_x;
            particles->z[new_ind]      = new_z;
            FindClosestPhaseVertex( particles, ic, jc, mesh, ind_list, new_ind, nb_neigh, &model );
''', '''            new_ind = NewMarker( particles, new_x, new_z );
            FindClosestPhaseVertex( particles, ic, jc, mesh, ind_list, new_ind, nb_neigh, &model );
'''), before='''static int NewMarker( markers *p, double x, double z ) {
    const int i = p->Nb_part++;
    p->x[i] = x;
    p->z[i] = z;
    return i;
}
''')

# --- PhaseRheologyLoop_v1: skip empty phases, switch, shared weight
E('PhaseRheologyLoop_v1',
  ('''        bool is_phase_active = false;
        const double min_fraction=1e-13;
        if ( fabs(vol[p][c])>min_fraction ) is_phase_active = true;

        if ( is_phase_active==true ) {
''', '''        const double frac = vol[p][c];
        if ( !(fabs(frac) > 1e-13) ) continue;
        const double w = sign*frac/denom;
        {
'''),
  ('''            if ( model->eta_average == ARITHMETIC) {
                *detadE      += sign*vol[p][c] * eta_vep/(denom); 
            }
            
            if ( model->eta_average == HARMONIC) {
                *detadE      += sign*vol[p][c] * eta_vep/(denom) / pow(eta_phase[p][c],2.0);
            }
            
            if ( model->eta_average == GEOMETRIC) {
                *detadE      += sign*vol[p][c] * eta_vep/(denom) / eta_phase[p][c];
            }

            // Anisotropic factor
            *danidE     += sign*vol[p][c] * ani_vep/(denom);
''', '''            switch ( model->eta_average ) {
                case ARITHMETIC: *detadE += w * eta_vep; break;
                case HARMONIC:   *detadE += w * eta_vep / (eta_phase[p][c]*eta_phase[p][c]); break;
                case GEOMETRIC:  *detadE += w * eta_vep / eta_phase[p][c]; break;
                default: break;
            }
            *danidE     += w * ani_vep;
'''),
  ('''            if (is_centroid > 0) { // if centroid, compute all derivatives of divp
                *ddivpdE     += sign*vol[p][c] * div_pl/(denom);
            }

            // Density (default arithmetic average)
            if (is_centroid == 2) { // if centroid and pressure is varied compute drhodp
                *drhodP      += sign*vol[p][c] * rho/(denom);
            }
''', '''            if (is_centroid <= 0) continue;
            *ddivpdE     += w * div_pl;
            if (is_centroid == 2) *drhodP += w * rho;
'''))

# --- EvalNumberOfEquations: predicate helper, conditional expression
E('EvalNumberOfEquations',
  ('''            Stokes->eqn_v[kk] = -1;
            if ( mesh->BCv.type[kk] ==-1 || mesh->BCv.type[kk] ==2 ) {
                Stokes->eqn_v[kk] = inc;
                inc++;
            }
''', '''            const int t = mesh->BCv.type[kk];
            Stokes->eqn_v[kk] = (t == 2 || t == -1) ? inc++ : -1;
'''),
  ('''    Stokes->neq_mom = inc;

    // Number P dofs
''', '''    Stokes->neq_mom = inc;
    const int first = inc;
'''),
  ('''            if ( mesh->BCp.type[kk] ==-1 ) {
                Stokes->eqn_p[kk] = inc;
                inc++;
                incP++;
            }
''', '''            if ( mesh->BCp.type[kk] ==-1 ) Stokes->eqn_p[kk] = inc++;
'''),
  ('''    Stokes->neq_cont = incP;
''', '''    Stokes->neq_cont = inc - first;
'''))

# --- AddCoeff3: inverted test
E('AddCoeff3',
  ('''    if (NODE_TYPE == 0 || NODE_TYPE == 31 || NODE_TYPE == 11 || NODE_TYPE == 13) {
        RHS[eqn]  -= coeff * NODE_VAL;
    }
    else {
        J[(*nnzc)] = jeq;
        A[(*nnzc)] = coeff;
        (*nnzc)++;
    }
''', '''    switch (NODE_TYPE) {
        case 0: case 11: case 13: case 31:
            RHS[eqn] = RHS[eqn] - NODE_VAL * coeff;
            return;
    }
    const int n = (*nnzc)++;
    A[n] = coeff;
    J[n] = jeq;
'''))

# --- MergeParallelMatrix: running offset
E('MergeParallelMatrix',
  ('''        if (ith==0) {
            begin[ith] = *(nnzc);
            end[ith]   = *(nnzc) + nnzc2[ith]-1;
        }
        else {
            begin[ith] = end[ith-1]+1;
            end[ith]   = end[ith-1]+1+nnzc2[ith]-1;
        }
''', '''        begin[ith] = ith==0 ? *nnzc : end[ith-1]+1;
        end[ith]   = begin[ith] + nnzc2[ith] - 1;
'''))

# --- kspgcr: pointers, merged constants
E('kspgcr',
  ('''            fact = 1.0/nrm;
            ArrayTimesScalar( ((double*)v->x), fact, N );
            ArrayTimesScalar( ((double*)s->x), fact, N );
            
            fact = r_dot_v;
            ArrayPlusScalarArray( ((double*)x->x), fact, ((double*)s->x), N );
            fact =-r_dot_v;
            ArrayPlusScalarArray( ((double*)f->x), fact, ((double*)v->x), N );
''', '''            double *sx = s->x, *vx = v->x;
            ArrayTimesScalar( sx, 1.0/nrm, N );
            ArrayTimesScalar( vx, 1.0/nrm, N );
            ArrayPlusScalarArray( x->x,  r_dot_v, sx, N );
            ArrayPlusScalarArray( f->x, -r_dot_v, vx, N );
'''))

# --- SetParticles: conditional expressions, phase local
E('SetParticles',
  ('''    if (setParticles.SetGrainSize) {
      particles->d[np] = setParticles.SetGrainSize(instance, coordinates, particles->phase[np]);
    } else {
      particles->d[np] = 0.0;
    }
    if (setParticles.SetPorosity) {
      particles->phi[np] = setParticles.SetPorosity(instance, coordinates, particles->phase[np]);
    } else {
      particles->phi[np] = 0.0;
    }
''', '''    const int phase = particles->phase[np];
    particles->d[np]   = setParticles.SetGrainSize ? setParticles.SetGrainSize(instance, coordinates, phase) : 0.0;
    particles->phi[np] = setParticles.SetPorosity  ? setParticles.SetPorosity(instance, coordinates, phase)  : 0.0;
'''),
  ('''    if (setParticles.SetPhase) {
      particles->phase[np] = setParticles.SetPhase(instance, coordinates);
    } else {
      particles->phase[np] = 0;
      particles->dual[np]  = 0;
    }
''', '''    if (!setParticles.SetPhase) {
      particles->dual[np]  = 0;
      particles->phase[np] = 0;
    } else {
      particles->phase[np] = setParticles.SetPhase(instance, coordinates);
    }
'''))

# --- CohesionFrictionDilationGrid: noise as a factor, early continue
E('CohesionFrictionDilationGrid',
  ('''      if (model.marker_noise == 1) mesh->C_n[c0] += mesh->noise_n[c0]*mesh->C_n[c0];
''', '''      if (model.marker_noise == 1) mesh->C_n[c0] *= 1.0 + mesh->noise_n[c0];
'''),
  ('''  int style = 0;
''', '''  const int style = model.smooth_softening==1 ? 1 : 0;
'''),
  ('''  if (model.smooth_softening==1) style = 1;
''', ''),
  ('''    if ( mesh->BCg.type[c1] != 30 ) {
      // Call softening''', '''    if ( mesh->BCg.type[c1] == 30 ) continue;
    {
      // Call softening'''))

# --- KSPStokesDecoupled: shared diagonal pointers, else-if, helper for the copies
E('KSPStokesDecoupled',
  ('''            if (mesh->comp_cells[k]==0) ((double*)D1cm0->x)[i] *= 0.0;
            if (mesh->comp_cells[k]==1 && vol_change == 0 ) ((double*)D1cm0->x)[i]  = mesh->bet_n[k] / model.dt * celvol * matD->d[i]*matD->d[i];
            if (mesh->comp_cells[k]==1 && vol_change == 1 ) ((double*)D1cm0->x)[i]  = mesh->drhodp_n[k] / (mesh->rho_n[k]*model.dt) * celvol * matD->d[i]*matD->d[i];
''', '''            double *dia = D1cm0->x;
            const double w = celvol * matD->d[i]*matD->d[i] / model.dt;
            if (mesh->comp_cells[k]==0) dia[i] *= 0.0;
            else if (mesh->comp_cells[k]==1) {
                if      (vol_change == 0 ) dia[i] = mesh->bet_n[k] * w;
                else if (vol_change == 1 ) dia[i] = mesh->drhodp_n[k] / mesh->rho_n[k] * w;
            }
'''),
  ('''    for (cc=0; cc<bu->nrow; cc++) {
        ((double*)b->x)[cc ] = ((double*)bu->x)[cc];
    }
    for (cc=0; cc<bp->nrow; cc++) {
        cc2=bu->nrow+cc;
        ((double*)b->x)[cc2] = ((double*)bp->x)[cc];
    }
''', '''    Stack( b, bu, bp );
'''), before='''static void Stack( cholmod_dense *b, const cholmod_dense *b1, const cholmod_dense *b2 ) {
    int i;
    double *x = b->x;
    for (i=0; i<b1->nrow; i++) x[i] = ((double*)b1->x)[i];
    for (i=0; i<b2->nrow; i++) x[b1->nrow+i] = ((double*)b2->x)[i];
}
''')

# --- ComputeLithostaticPressure: mask local, merged corrections
E('ComputeLithostaticPressure',
  ('''                mesh->p_lith[c] += model->bkg_pressure;
                mesh->p_lith[c] += 0.5*model->gz * mesh->dz * rho_eff;
''', '''                mesh->p_lith[c] += model->bkg_pressure + 0.5*model->gz * mesh->dz * rho_eff;
'''),
  ('''        if ( mesh->BCp.type[c1W] != 30 ) mesh->sxx_W[l] += model->bkg_pressure;
        if ( mesh->BCp.type[c1E] != 30 ) mesh->sxx_E[l] += model->bkg_pressure;
        if ( mesh->BCp.type[c1W] != 30 ) mesh->sxx_W[l] += 0.5*model->gz * mesh->dz * rhoW;
        if ( mesh->BCp.type[c1E] != 30 ) mesh->sxx_E[l] += 0.5*model->gz * mesh->dz * rhoE;
        if ( mesh->BCp.type[c1W] != 30 ) mesh->sxx_W[l] *= -1.;
        if ( mesh->BCp.type[c1E] != 30 ) mesh->sxx_E[l] *= -1.;
''', '''        const double h = 0.5*model->gz * mesh->dz;
        if ( mesh->BCp.type[c1W] != 30 ) mesh->sxx_W[l] = -(mesh->sxx_W[l] + model->bkg_pressure + h*rhoW);
        if ( mesh->BCp.type[c1E] != 30 ) mesh->sxx_E[l] = -(mesh->sxx_E[l] + model->bkg_pressure + h*rhoE);
'''))
