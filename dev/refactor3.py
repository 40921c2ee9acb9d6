"""third suite of behaviour-preserving edits, written after the engine work of the first two (measures how it generalises). usage: refactor3.py MDLIBDIR"""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
exec(open(os.path.dirname(os.path.abspath(__file__)) + '/refactor1.py').read().split('# ScaleMe:')[0])
def E(name, *prs, before=None):
    f = where(name)
    if before: pre(f, name, before)
    fn(f, name, *prs)

# --- PureShearALE: side average helper, ternaries
E('PureShearALE',
  ('''    // Loop on E-W sides: calculate average boundary velocity
    icount1 = 0; icount2 = 0;
    for (j=0; j<mesh->Nz; j++) {
        c1 = 0 +j*(mesh->Nx);
        c2 = (mesh->Nx-1) +j*(mesh->Nx);

        if (mesh->BCu.type[c1] == 0) {
            VxW += mesh->u_in[c1];
            icount1++;
        }
        if (mesh->BCu.type[c2] == 0) {
            VxE += mesh->u_in[c2];
            icount2++;
        }
    }
    if (icount1>0) VxW /= icount1;
    if (icount2>0) VxE /= icount2;
''', '''    VxW = SideVelocity( mesh, 0 );
    VxE = SideVelocity( mesh, mesh->Nx-1 );
'''),
  ('''            if (model->free_surface == 0) {
                VzS += mesh->v_in[c1];
            }
            else {
                VzS += mesh->BCv.val[c1];
            }

            icount1++;
''', '''            icount1++;
            VzS += model->free_surface == 0 ? mesh->v_in[c1] : mesh->BCv.val[c1];
'''),
  ('''    double dxmin = VxW * model->dt;
    double dxmax = VxE * model->dt;

    double dzmin = VzS * model->dt;
    double dzmax = VzN * model->dt;
''', '''    const double dt    = model->dt;
    const double dzmin = VzS * dt, dzmax = VzN * dt;
    const double dxmin = VxW * dt, dxmax = VxE * dt;
'''), before='''static double SideVelocity( const grid *mesh, int column ) {
    double sum = 0.0;
    int    n   = 0;
    for (int j=0; j<mesh->Nz; j++) {
        const int c = column + j*mesh->Nx;
        if (mesh->BCu.type[c] != 0) continue;
        sum += mesh->u_in[c];
        n++;
    }
    return n > 0 ? sum/n : sum;
}
''')

# --- RogerGuntherII: displacement helper
E('RogerGuntherII',
  ('''        particles->x[k] = xA + 0.5 * model.dt * VxA;
        particles->z[k] = zA + 0.5 * model.dt * VzA;
''', '''        PlaceMarker( particles, k, xA, zA, 0.5 * model.dt, VxA, VzA );
'''),
  ('''        particles->x[k] = xA + 0.5 * model.dt * VxB;
        particles->z[k] = zA + 0.5 * model.dt * VzB;
''', '''        PlaceMarker( particles, k, xA, zA, 0.5 * model.dt, VxB, VzB );
'''),
  ('''        particles->x[k] = xA + 1.0 * model.dt * VxC;
        particles->z[k] = zA + 1.0 * model.dt * VzC;
''', '''        PlaceMarker( particles, k, xA, zA, model.dt, VxC, VzC );
'''),
  ('''    VxA = (1.0/6.0) * ( VxA + 2.0 * VxB + 2.0 * VxC + VxD);
    VzA = (1.0/6.0) * ( VzA + 2.0 * VzB + 2.0 * VzC + VzD);
''', '''    const double Vx = ( VxA + 2.0 * (VxB + VxC) + VxD )/6.0;
    const double Vz = ( VzA + 2.0 * (VzB + VzC) + VzD )/6.0;
'''),
  ('''        particles->x[k]    = xA + model.dt * VxA;
        particles->z[k]    = zA + model.dt * VzA;
        particles->Vx[k]   = VxA;
        particles->Vz[k]   = VzA;
''', '''        particles->Vx[k]   = Vx;
        particles->Vz[k]   = Vz;
        PlaceMarker( particles, k, xA, zA, model.dt, Vx, Vz );
'''), before='''static void PlaceMarker( markers *p, int k, double x0, double z0, double dt, double Vx, double Vz ) {
    p->x[k] = x0 + dt * Vx;
    p->z[k] = z0 + dt * Vz;
}
''')

# --- AddPartSed: ternaries, column helper, x position by formula
E('AddPartSed',
  ('''    if ( time_My % 2 > 0 ) sed_phase = model.surf_ised1;
    else                   sed_phase = model.surf_ised2;
''', '''    sed_phase = time_My % 2 > 0 ? model.surf_ised1 : model.surf_ised2;
'''),
  ('''        xE = xmin + k*dx/res + dx/res;
''', '''        xE = xmin + (k+1)*dx/res;
'''),
  ('''            if (ip == 0) xnew = xW + dx/res/nb_part/2.0;
            if (ip == 1) xnew = xE - dx/res/nb_part/2.0;
''', '''            const double off = dx/(2.0*res*nb_part);
            xnew = ip == 0 ? xW + off : xE - off;
'''),
  ('''            in              = ceil((distance/dx)+0.5) - 1;
            if (in<0)    in = 0;
            if (in>Ncx-1)in = Ncx-1;
''', '''            in              = SedColumn( distance/dx, Ncx );
'''),
  ('''            if ( hm > hm0 ) { //;# && (hm-hm0)>1e-6
''', '''            if ( !(hm > hm0) ) continue;
            {
'''), before='''static int SedColumn( double s, int n ) {
    const int i = ceil(s+0.5) - 1;
    if (i < 0)   return 0;
    if (i > n-1) return n-1;
    return i;
}
''')

# --- InterpTopoPart2Grid: guard clauses, merged loops, weight once
E('InterpTopoPart2Grid',
  ('''            if (model.topo_update==0) mark_val  = topo_chain->z[k];
            if (model.topo_update==1) mark_val  = topo_chain->z[k] - topo_chain->z0[k];
            Wm[in]   += 1.0 - dxm/dx;
            BmWm[in] += mark_val*(1.0-dxm/dx);
''', '''            const double w = 1.0 - dxm/dx;
            if (model.topo_update==0) mark_val  = topo_chain->z[k];
            if (model.topo_update==1) mark_val  = topo_chain->z[k] - topo_chain->z0[k];
            BmWm[in] += w*mark_val;
            Wm[in]   += w;
'''),
  ('''        if (Wm[k]<1e-30){
            Delta_heightc[k] = 0.0;
        }
        else {
            Delta_heightc[k] = BmWm[k]/Wm[k];
        }
''', '''        Delta_heightc[k] = Wm[k] < 1e-30 ? 0.0 : BmWm[k]/Wm[k];
'''),
  ('''    int k_fine = 0;
    for (int k=0;k<Nx-1;k++) {
        double hW = topo->height[k];
        double hE = topo->height[k+1];
        topo->height_finer_c[k_fine] = 0.75*hW + 0.25*hE;
        k_fine++;
        topo->height_finer_c[k_fine] = 0.25*hW + 0.75*hE;
        k_fine++;
    }
''', '''    for (int k=0;k<Nx-1;k++) {
        const double hW = topo->height[k], hE = topo->height[k+1];
        topo->height_finer_c[2*k]   = 0.75*hW + 0.25*hE;
        topo->height_finer_c[2*k+1] = 0.25*hW + 0.75*hE;
    }
'''))

# --- RemeshMarkerChain: helper for the coarse column, single test
E('RemeshMarkerChain',
  ('''            if (topo_chain->phase[k] != -1) NumMarkCell[in]++;
            // NEW
            if (topo_chain->phase[k] == -1) nout++;
''', '''            if (topo_chain->phase[k] == -1) nout++;
            else NumMarkCell[in]++;
'''),
  ('''            if (topo_chain->x[k]>model.xmax || topo_chain->x[k]<model.xmin  ) topo_chain->phase[k] = -1;
            else topo_chain->phase[k] = 0;
''', '''            const int inside = topo_chain->x[k] >= model.xmin && topo_chain->x[k] <= model.xmax;
            topo_chain->phase[k] = inside ? 0 : -1;
'''),
  ('''                if( topo_chain->Nb_part+1<topo_chain->Nb_part_max && topo_chain->Nb_part+2<topo_chain->Nb_part_max) {
''', '''                if( topo_chain->Nb_part+2<topo_chain->Nb_part_max ) {
'''),
  ('''                    if (recycle==0) NewInd                = topo_chain->Nb_part;
                    if (recycle==0) topo_chain->Nb_part++;
                    if (recycle==1) NewInd                = reuse[ii];
                    if (recycle==1) ii++;
''', '''                    if (recycle==0) NewInd = topo_chain->Nb_part++;
                    else            NewInd = reuse[ii++];
'''),
  ('''            distance        = (topo_chain->x[k]-model.xmin-dx/2.0);
            in              = ceil((distance/dx)+0.5) - 1;
            if (in<0)    in = 0;
            if (in>Ncx-1)in = Ncx-1;
            grid_topo       = (topo->b[in] + topo->a[in] * ( topo_chain->x[k] ));
''', '''            distance        = (topo_chain->x[k]-(model.xmin+0.5*dx));
            in              = SedColumn( distance/dx, Ncx );
            grid_topo       = topo->a[in] * topo_chain->x[k] + topo->b[in];
'''), before='''static int SedColumn( double s, int n );
''')

# --- AccumulatedStrainII: clamp helper, shared weights, loop with continue
E('AccumulatedStrainII',
  ('''            j_part   = ceil((dst/dx)) - 1;
            if (j_part<0) {
                j_part = 0;
            }
            if (j_part>Nx-2) {
                j_part = Nx-2;
            }
''', '''            j_part   = ClampIndex( ceil((dst/dx)) - 1, Nx-2 );
'''),
  ('''            i_part   = ceil((dst/dz)) - 1;
            if (i_part<0) {
                i_part = 0;
            }
            if (i_part>Nz-2) {
                i_part = Nz-2;
            }
''', '''            i_part   = ClampIndex( ceil((dst/dz)) - 1, Nz-2 );
'''),
  ('''                dE_tot +=  (1.0-dxm/dx) * (1.0-dzm/dz) * strain_inc[iSW];
                dE_el  +=  (1.0-dxm/dx) * (1.0-dzm/dz) * strain_inc_el[iSW];
                dE_pl  +=  (1.0-dxm/dx) * (1.0-dzm/dz) * strain_inc_pl[iSW];
                dE_pwl +=  (1.0-dxm/dx) * (1.0-dzm/dz) * strain_inc_pwl[iSW];
                dE_exp +=  (1.0-dxm/dx) * (1.0-dzm/dz) * strain_inc_exp[iSW];
                dE_lin +=  (1.0-dxm/dx) * (1.0-dzm/dz) * strain_inc_lin[iSW];
                dE_gbs +=  (1.0-dxm/dx) * (1.0-dzm/dz) * strain_inc_gbs[iSW];
                sumW   +=  (1.0-dxm/dx) * (1.0-dzm/dz);
''', '''                const double w = (1.0-dxm/dx) * (1.0-dzm/dz);
                dE_tot +=  w * strain_inc[iSW];
                dE_el  +=  w * strain_inc_el[iSW];
                dE_pl  +=  w * strain_inc_pl[iSW];
                dE_pwl +=  w * strain_inc_pwl[iSW];
                dE_exp +=  w * strain_inc_exp[iSW];
                dE_lin +=  w * strain_inc_lin[iSW];
                dE_gbs +=  w * strain_inc_gbs[iSW];
                sumW   +=  w;
'''),
  ('''            iSE = j_part+i_part*Nx+1;
            iNW = j_part+(i_part+1)*Nx;
            iNE = j_part+(i_part+1)*Nx+1;
''', '''            iSE = iSW + 1;
            iNW = iSW + Nx;
            iNE = iNW + 1;
'''), before='''static int ClampIndex( int i, int hi ) {
    return i < 0 ? 0 : (i > hi ? hi : i);
}
''')

# --- UpdateAnisoFactor: contribution helper used for cells and nodes, switch
E('UpdateAnisoFactor',
  ('''          // Arithmetic
          if (average == 0) {
            if (materials->ani_fstrain[p]==0) mesh->aniso_factor_n[c0] += mesh->phase_perc_n[p][c0] * materials->aniso_factor[p];
            if (materials->ani_fstrain[p]==1) mesh->aniso_factor_n[c0] += mesh->phase_perc_n[p][c0] * AnisoFactorEvolv( mesh->FS_AR_n[c0], materials->ani_fac_max[p] );
          }
          // Harmonic
          if (average == 1) {
            if (materials->ani_fstrain[p]==0) mesh->aniso_factor_n[c0] += mesh->phase_perc_n[p][c0] * 1.0/materials->aniso_factor[p];
            if (materials->ani_fstrain[p]==1) mesh->aniso_factor_n[c0] += mesh->phase_perc_n[p][c0] * 1.0/AnisoFactorEvolv( mesh->FS_AR_n[c0], materials->ani_fac_max[p] );
          }
          // Geometric
          if (average == 2) {
            if (materials->ani_fstrain[p]==0) mesh->aniso_factor_n[c0] += mesh->phase_perc_n[p][c0] * log(materials->aniso_factor[p]);
            if (materials->ani_fstrain[p]==1) mesh->aniso_factor_n[c0] += mesh->phase_perc_n[p][c0] * log(AnisoFactorEvolv( mesh->FS_AR_n[c0], materials->ani_fac_max[p] ));
          }
''', '''          mesh->aniso_factor_n[c0] += AnisoShare( materials, p, average, mesh->phase_perc_n[p][c0], mesh->FS_AR_n[c0] );
'''), before='''static double AnisoShare( mat_prop *materials, int p, int average, double perc, double FS_AR ) {
  double a;
  if (materials->ani_fstrain[p]==0)      a = materials->aniso_factor[p];
  else if (materials->ani_fstrain[p]==1) a = AnisoFactorEvolv( FS_AR, materials->ani_fac_max[p] );
  else return 0.0;
  switch (average) {
    case 0: return perc * a;
    case 1: return perc / a;
    case 2: return perc * log(a);
  }
  return 0.0;
}
''')

# --- RheologicalOperators: operator helper for the four zero rows, inverted condition in the isotropic branch
E('RheologicalOperators',
  ('''        mesh->D11_n[k] = 2.0*mesh->eta_n[k] - 2.0*aniS_vep*d1*eta_vep;
        mesh->D12_n[k] =                      2.0*aniS_vep*d1*eta_vep;
        mesh->D13_n[k] =                     -2.0*aniS_vep*d2*eta_vep;
''', '''        const double off1 = 2.0*aniS_vep*d1*eta_vep, off2 = 2.0*aniS_vep*d2*eta_vep;
        mesh->D11_n[k] = 2.0*eta_vep - off1;
        mesh->D12_n[k] = off1;
        mesh->D13_n[k] = -off2;
'''),
  ('''        mesh->D21_n[k] =                      2.0*aniS_vep*d1*eta_vep;
        mesh->D22_n[k] = 2.0*mesh->eta_n[k] - 2.0*aniS_vep*d1*eta_vep;
        mesh->D23_n[k] =                      2.0*aniS_vep*d2*eta_vep;
''', '''        mesh->D21_n[k] = off1;
        mesh->D22_n[k] = 2.0*eta_vep - off1;
        mesh->D23_n[k] = off2;
'''),
  ('''        //----------------------------------------------------------//
        mesh->D11_n[k] = 0.0; mesh->D12_n[k] = 0.0; mesh->D13_n[k] = 0.0; mesh->D14_n[k] = 0.0;
        //----------------------------------------------------------//
        mesh->D21_n[k] = 0.0; mesh->D22_n[k] = 0.0; mesh->D23_n[k] = 0.0; mesh->D24_n[k] = 0.0;
        //----------------------------------------------------------//
''', '''        ZeroTangent( mesh, k );
'''), before='''static void ZeroTangent( grid *mesh, int k ) {
  double *D[] = { mesh->D11_n, mesh->D12_n, mesh->D13_n, mesh->D14_n, mesh->D21_n, mesh->D22_n, mesh->D23_n, mesh->D24_n };
  for (int i=0; i<8; i++) D[i][k] = 0.0;
}
''')

# --- ChemicalDirectSolve: flattened extraction, inverted branches
E('ChemicalDirectSolve',
  ('''    for( l=0; l<ncz; l++) {
        for( k=0; k<ncx; k++) {
            c0  = (k+1) + (l+1)*(ncx+2);
            c2  = k   + l*ncx;
            eqn = eqn_t[c2];
            if ( mesh->BCC_exp.type[c0] != 30 ) {
                //                mesh->dT[c2] = 1.0*(x[eqn] -  mesh->T[c2]);
                mesh->X_n[c2]  = x[eqn];
                if (mesh->X_n[c2] < 0.0) {
                    printf("Negative X --- Are you crazy! (ChemicalDirectSolve)\\n");
                    exit(1);
                }
            }
            else {
                // Outside the free surface
                mesh->X_n[c2]  = 0.0;
            }
        }
    }
''', '''    for( l=0; l<ncz; l++) {
        for( k=0; k<ncx; k++) {
            c0  = (k+1) + (l+1)*(ncx+2);
            c2  = k   + l*ncx;
            if ( mesh->BCC_exp.type[c0] == 30 ) {
                mesh->X_n[c2]  = 0.0;
                continue;
            }
            const double Xnew = x[eqn_t[c2]];
            mesh->X_n[c2]  = Xnew;
            if (Xnew < 0.0) {
                printf("Negative X --- Are you crazy! (ChemicalDirectSolve)\\n");
                exit(1);
            }
        }
    }
'''),
  ('''    for( c2=0; c2<ncz*ncx; c2++) {
        k   = mesh->kp[c2];
        l   = mesh->lp[c2];
        c1  = k + l*nx;
        c3  = k + l*nxvz;
        eqn = eqn_t[c2];
        
        if ( mesh->BCc.type[c2] != 30 ) {
            
            // Contribution from transient term
            b[eqn]  = transient * mesh->X_n[c2]/ dt;
        }
    }
''', '''    const double rate = transient/dt;
    for( c2=0; c2<ncz*ncx; c2++) {
        if ( mesh->BCc.type[c2] == 30 ) continue;
        b[eqn_t[c2]] = rate * mesh->X_n[c2];
    }
'''))

# --- GridIndices: one helper for the four index tables
E('GridIndices',
  ('''    for( l=0; l<mesh->Nz; l++) {
        for( k=0; k<mesh->Nx; k++) {
            kk = k + l*(mesh->Nx);
            mesh->kn[kk] = k;
            mesh->ln[kk] = l;
        }
    }
''', '''    FillIndices( mesh->kn, mesh->ln, mesh->Nx, mesh->Nz );
'''),
  ('''    for( l=0; l<mesh->Nz-1; l++) {
        for( k=0; k<mesh->Nx-1; k++) {
            kk = k + l*(mesh->Nx-1);
            mesh->kp[kk] = k;
            mesh->lp[kk] = l;
        }
    }
''', '''    FillIndices( mesh->kp, mesh->lp, mesh->Nx-1, mesh->Nz-1 );
'''), before='''static void FillIndices( int *ki, int *li, int nx, int nz ) {
    for (int l=0; l<nz; l++) {
        for (int k=0; k<nx; k++) {
            const int c = k + l*nx;
            ki[c] = k;
            li[c] = l;
        }
    }
}
''')

# --- Continuity: divergence weight helper, hoisted flags, combined branch
E('Continuity_InnerNodesDecoupled',
  ('''    if ( model.out_of_plane == 1 ) oop_fact = 3.0/2.0;

    // Compressibility
    if ( comp == 1 ) comp_fact = 1.0;
''', '''    oop_fact  = model.out_of_plane == 1 ? 1.5 : 1.0;
    comp_fact = comp == 1 ? 1.0 : 0.0;
'''),
  ('''        if ( model.density_variations == 0 )  {
            // beta * dP / dt
            StokesC->F[eqn] = comp_fact*mesh->bet_n[c2]*(mesh->p_in[c2] -  mesh->p0_n[c2] ) / model.dt + mesh->div_u[c2];
        }
        if ( model.density_variations == 1 )  {
            // d (ln(rho)) / dt
            if ( model.density_variations == 1 )  StokesC->F[eqn]''', '''        switch ( model.density_variations ) {
        case 0:
            // beta * dP / dt
            StokesC->F[eqn] = pc*(mesh->p_in[c2] -  mesh->p0_n[c2] ) + mesh->div_u[c2];
            break;
        case 1:
            // d (ln(rho)) / dt
            StokesC->F[eqn]'''),
  ('''        StokesC->F[eqn]-= StokesC->b[eqn];
        StokesC->F[eqn] *= celvol;
        StokesD->F[eqn] = StokesC->F[eqn] ;''', '''        StokesC->F[eqn] = celvol*(StokesC->F[eqn] - StokesC->b[eqn]);
        StokesD->F[eqn] = StokesC->F[eqn] ;'''))

# --- LineSearchDecoupled: norm helper, merged best tests, initialisation moved
E('LineSearchDecoupled',
  ('''            fxzp = sqrt( pow( rx[k],2 ) + pow( rz[k],2 ) + pow( rp[k],2 ) );
            fxz  = sqrt( pow( rx[k],2 ) + pow( rz[k],2 ) );
''', '''            fxzp = Norm3( rx[k], rz[k], rp[k] );
            fxz  = sqrt( rx[k]*rx[k] + rz[k]*rz[k] );
'''),
  ('''        fxzp  = sqrt( pow( rx[ixzp],2 ) + pow( rz[ixzp],2 ) + pow( rp[ixzp],2 ) );
        fxzp0 = sqrt( pow(Nmodel->resx_f, 2) + pow( Nmodel->resz_f, 2) +  pow(Nmodel->resp_f, 2) );
''', '''        fxzp  = Norm3( rx[ixzp], rz[ixzp], rp[ixzp] );
        fxzp0 = Norm3( Nmodel->resx_f, Nmodel->resz_f, Nmodel->resp_f );
'''),
  ('''        Nmodel->stagnated = 0;
            alpha = min_step;
''', '''        alpha = min_step;
            Nmodel->stagnated = 0;
'''), before='''static double Norm3( double a, double b, double c ) {
    return sqrt( a*a + b*b + c*c );
}
''')

# --- EvaluateStokesResidualDecoupled: norm helper, early continue, mask helper
E('EvaluateStokesResidualDecoupled',
  ('''        if ( mesh->BCu.type[cc] != 0 && mesh->BCu.type[cc] != 30 && mesh->BCu.type[cc] != 11 && mesh->BCu.type[cc] != 13 && mesh->BCu.type[cc] != -12) {
            int l   = mesh->lvx[cc];
            mesh->ru[cc]                   = StokesA->F[Stokes->eqn_u[cc]];
            StokesA->F[Stokes->eqn_u[cc]] *= StokesA->d[Stokes->eqn_u[cc]]; // Need to scale the residual here for Defect Correction formulation (F is the RHS)
            if (l>2 && l<nzvx-2) {
                ndofx++;
                resx                          += StokesA->F[Stokes->eqn_u[cc]]*StokesA->F[Stokes->eqn_u[cc]];
            }
        }
    }
    Nmodel->resx = resx;
''', '''        if ( !MomentumDof( mesh->BCu.type[cc] ) ) continue;
        const int l   = mesh->lvx[cc];
        const int eqn = Stokes->eqn_u[cc];
        const double f = StokesA->F[eqn] * StokesA->d[eqn];
        mesh->ru[cc]    = StokesA->F[eqn];
        StokesA->F[eqn] = f; // Need to scale the residual here for Defect Correction formulation (F is the RHS)
        if (l>2 && l<nzvx-2) {
            resx += f*f;
            ndofx++;
        }
    }
'''),
  ('''    Nmodel->resx =  sqrt(Nmodel->resx/ndofx);
''', '''    Nmodel->resx =  sqrt(resx/ndofx);
'''), before='''static int MomentumDof( char type ) {
    return !(type == 0 || type == 30 || type == 11 || type == 13 || type == -12);
}
''')

# --- ParticleInflowCheck: side test helper, counters
E('ParticleInflowCheck',
  ('''    for (k=0; k<Nb_part; k++) {
        if ( particles->phase[k] == -1 ) {
            ip_reuse[np_reuse] = k; 
            np_reuse++;
        }
    }
''', '''    k = 0;
    while (k < Nb_part) {
        if ( particles->phase[k] == -1 ) ip_reuse[np_reuse++] = k;
        k++;
    }
'''),
  ('''                if (particles->x[k]>=xW && particles->x[k]<=xW+dx2) {
                    particles->intag[k] = 1;
                    npW += 1;
                }
''', '''                if (Between(particles->x[k], xW, xW+dx2)) {
                    particles->intag[k] = 1;
                    npW++;
                }
'''),
  ('''                        NewIndex = ip_reuse[np_reuse-1];
                        np_reuse -= 1;
''', '''                        NewIndex = ip_reuse[--np_reuse];
'''), before='''static int Between( double x, double lo, double hi ) {
    return x >= lo && x <= hi;
}
''')

# --- EvaluateDensity: switch with local state
E('EvaluateDensity',
  ('''  if ( materials->density_model[p] == 0 ) {
    const double rho_ref = materials->rho[p];
    rho     = rho_ref;
  }
''', '''  const int    density_model = materials->density_model[p];
  const double beta = materials->bet[p], alpha = materials->alp[p];
  if ( density_model == 0 ) rho = materials->rho[p];
'''),
  ('''    rho     = rho_ref*exp(beta*P  - alpha*T);
''', '''    rho     = exp(P*beta  - T*alpha)*rho_ref;
'''),
  ('''    const double rhos    = rho_sol * exp(beta*P - alpha*T);
    const double rhol    = rho_liq * exp(beta*P - alpha*T);
''', '''    const double fac     = exp(beta*P - alpha*T);
    const double rhos    = rho_sol * fac;
    const double rhol    = rho_liq * fac;
'''))

# --- AssignMarkerProperties: pointer-table copy of the strain fields
E('AssignMarkerProperties',
  ('''    particles->strain[new_ind]        = particles->strain[min_index];
    particles->strain_el[new_ind]     = particles->strain_el[min_index];
    particles->strain_pl[new_ind]     = particles->strain_pl[min_index];
    particles->strain_pwl[new_ind]    = particles->strain_pwl[min_index];
    particles->strain_exp[new_ind]    = particles->strain_exp[min_index];
    particles->strain_lin[new_ind]    = particles->strain_lin[min_index];
    particles->strain_gbs[new_ind]    = particles->strain_gbs[min_index];
    particles->divth[new_ind]         = particles->divth[min_index]; // to be changed
''', '''    CopyStrains( particles, new_ind, min_index );
'''),
  ('''    if ( direct_neighbour == 1 ) {
''', '''    const int copy = direct_neighbour == 1;
    if ( copy ) {
'''), before='''static void CopyStrains( markers *p, int to, int from ) {
    double *fields[] = { p->strain, p->strain_el, p->strain_pl, p->strain_pwl, p->strain_exp, p->strain_lin, p->strain_gbs, p->divth };
    for (size_t i=0; i<sizeof(fields)/sizeof(fields[0]); i++) fields[i][to] = fields[i][from];
}
''')

# --- DeletePreviousBreakpoint
E('DeletePreviousBreakpoint',
  ('''    if ((step- 2*writer_step)>1) {
''', '''    const int victim = step - 2*writer_step;
    if (victim <= 1) return;
    {
'''),
  ('"Breakpoint%05d.dat", step- 2*writer_step)', '"Breakpoint%05d.dat", victim)'),
  ('"Breakpoint%05d.dat", step- 0*writer_step)', '"Breakpoint%05d.dat", step)'))
