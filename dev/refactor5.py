"""fifth suite of behaviour-preserving edits. usage: refactor5.py MDLIBDIR"""
import os
exec(open(os.path.dirname(os.path.abspath(__file__)) + '/refactor4.py').read().split('# --- EvaluateCourantCriterion')[0])

# --- Check_dt_for_advection: early return for a fixed step, absolute maxima collected directly
E('Check_dt_for_advection',
  ('''    if (model->constant_dt == 0) {
    // Get current dt value;''', '''    if (model->constant_dt != 0) {
        model->dt = model->dt_start;
        if (quiet==0) printf("Fixed timestep dt = %2.2e s\\n", model->dt * scaling.t );
        return;
    }
    // Get current dt value;'''),
  ('''    else {
        model->dt = model->dt_start;
        if (quiet==0) printf("Fixed timestep dt = %2.2e s\\n", model->dt * scaling.t );
    }
''', ''),
  ('''            dtc = 0.0;
            model->dt = model->dt_start;
        }

        //if (quiet==0) printf("Current dt = %2.2e s / Courant dt = %2.2e s\\n", model->dt * scaling.t, dtc * scaling.t );
    }
''', '''            dtc = 0.0;
            model->dt = model->dt_start;
        }
'''),
  ('''    vmax = MAXV(fabs(maxVx), fabs(maxVz));
    vmin = MAXV(fabs(minVx), fabs(minVz));
    vmax = MAXV(fabs(vmax),  fabs(vmin));
''', '''    vmax = fabs(maxVx);
    if (fabs(minVx) > vmax) vmax = fabs(minVx);
    if (fabs(maxVz) > vmax) vmax = fabs(maxVz);
    if (fabs(minVz) > vmax) vmax = fabs(minVz);
'''),
  ('''dtc = C * dmin / fabs(vmax);''', '''dtc = C / vmax * dmin;'''))

# --- UpdateAlphaCp: guard hoisted, accumulators, inverted test, helper for the derivative
E('UpdateAlphaCp',
  ('''        mesh->Cp[c0]  = 0.0;
        mesh->alp[c0] = 0.0;
''', '''        double cp = 0.0, al = 0.0;
        const double P = mesh->p_in[c0], T = mesh->T[c0], phi0 = mesh->phi0_n[c0];
'''),
  ('''            if ( fabs(mesh->phase_perc_n[p][c0])>1.0e-13 ) {
                
                // Compute only if below free surface
                if ( mesh->BCp.type[0] != 30 && mesh->BCp.type[0] != 31) {''', '''            const double w = mesh->phase_perc_n[p][c0];
            if ( !(fabs(w)>1.0e-13) || mesh->BCp.type[0] == 30 || mesh->BCp.type[0] == 31 ) continue;
            {
                {'''),
  ('''PartialMelting( &phi, &Ql, mesh->p_in[c0], mesh->T[c0], mesh->phi0_n[c0], tk''', '''PartialMelting( &phi, &Ql, P, T, phi0, tk'''),
  ('''                       dMdP = (phi_plus - phi_minus)/(2.0*pert);
''', '''                       dMdP = 0.5*(phi_plus - phi_minus)/pert;
'''),
  ('''                       pert = mesh->T[c0]*1e-6;
''', '''                       pert = 1e-6*T;
'''),
  ('''alp_melt = Ql*dMdP/mesh->T[c0]*mesh->rho_n[c0]; ''', '''alp_melt = mesh->rho_n[c0]*Ql*dMdP/T; '''),
  ('''mesh->Cp[c0]  += (mesh->phase_perc_n[p][c0]*(materials->Cp[p]  + Cp_melt) );''', '''cp += w*materials->Cp[p] + w*Cp_melt;'''),
  ('''mesh->alp[c0] += (mesh->phase_perc_n[p][c0]*(materials->alp[p] - alp_melt) );
                }
            }
        }
''', '''al -= w*(alp_melt - materials->alp[p]);
                }
            }
        }
        mesh->alp[c0] = al;
        mesh->Cp[c0]  = cp;
'''))

# --- AccumulatedStrain: helper for interpolation + sum, flat loop, guard on the sum before storing
E('AccumulatedStrain',
  ('''    for (k=0; k<Nx-1; k++) {
        for (l=0; l<Nz-1; l++) {
            c1 = k  + l*(Nx-1);
            
            strain_inc[c1]''', '''    for (l=0; l<Nz-1; l++) {
        for (k=0; k<Nx-1; k++) {
            c1 = l*(Nx-1) + k;
            
            strain_inc[c1]'''),
  ('''    Interp_Grid2P_strain( *particles, strain_inc_mark, mesh, strain_inc_el, mesh->xc_coord,  mesh->zc_coord, Nx-1, Nz-1, mesh->BCp.type );
    ArrayPlusArray( particles->strain_el, strain_inc_mark, particles->Nb_part );
''', '''    AddIncrement( mesh, particles, strain_inc_mark, strain_inc_el, particles->strain_el );
'''),
  ('''    Interp_Grid2P_strain( *particles, strain_inc_mark, mesh, strain_inc_gbs, mesh->xc_coord,  mesh->zc_coord, Nx-1, Nz-1, mesh->BCp.type );
    ArrayPlusArray( particles->strain_gbs, strain_inc_mark, particles->Nb_part );
''', '''    AddIncrement( mesh, particles, strain_inc_mark, strain_inc_gbs, particles->strain_gbs );
'''),
  before='''static void AddIncrement( grid* mesh, markers* particles, DoodzFP* work, double* inc, DoodzFP* total ) {
    Interp_Grid2P_strain( *particles, work, mesh, inc, mesh->xc_coord, mesh->zc_coord, mesh->Nx-1, mesh->Nz-1, mesh->BCp.type );
    ArrayPlusArray( total, work, particles->Nb_part );
}
''')

# --- SurfaceVelocity: one interpolation helper, no dead sums
E('SurfaceVelocity',
  ('''        topo_chain->Vx[k] = 0.0;
        distance          = (topo_chain->x[k]-mesh->xg_coord[0]);
        in                = ceil((distance/dx)) - 1;
        if (in<0)    in   = 0;
        if (in>nx-2) in   = nx-2;
        dxm               = topo_chain->x[k] - mesh->xg_coord[in];
        topo_chain->Vx[k] =  (1.0-dxm/dx)* topo->vx[in];
        topo_chain->Vx[k]+=  (dxm/dx)* topo->vx[in+1];
''', '''        topo_chain->Vx[k] = LinearAt( topo_chain->x[k], mesh->xg_coord, topo->vx, nx, dx );
'''),
  ('''        topo_chain->Vz[k] = 0.0;
        distance          =(topo_chain->x[k]-mesh->xvz_coord[0]);
        in                = ceil((distance/dx)) - 1;
        if (in<0)      in = 0;
        if(in>(nx+1)-2)in = (nx+1)-2;
        dxm               = topo_chain->x[k] - mesh->xvz_coord[in];
        topo_chain->Vz[k] =  (1.0-dxm/dx)* topo->vz[in];
        topo_chain->Vz[k]+=  (dxm/dx)* topo->vz[in+1];
''', '''        topo_chain->Vz[k] = LinearAt( topo_chain->x[k], mesh->xvz_coord, topo->vz, nxvz, dx );
'''),
  before='''static double LinearAt( double x, double* X, double* V, int n, double dx ) {
    int i = ceil( (x-X[0])/dx ) - 1;
    i = i < 0 ? 0 : (i > n-2 ? n-2 : i);
    const double w = (x - X[i])/dx;
    return V[i] + w*(V[i+1] - V[i]);
}
''')

# --- DiffuseAlongTopography: hoisted coefficient, single dtr expression, ternaries
E('DiffuseAlongTopography',
  ('''        if (dt >diff_time) dtr = diff_time;
        if (dt<=diff_time) dtr = diff_time/nstep;
''', '''        dtr = dt > diff_time ? diff_time : diff_time/nstep;
        const double cf = 0.5*diff*dtr/(dx*dx);
'''),
  ('''correct[i]  = 0.5*dtr/dx/dx*diff*(array[i-1]+array[i+1]-2.0*array[i]);''', '''correct[i]  = cf*((array[i+1]-array[i]) - (array[i]-array[i-1]));'''),
  ('''                correct[i] += 0.5*dtr/dx/dx*diff*(array[i-1]+array[i+1]-2.0*array[i]);''', '''                correct[i] += cf*(array[i-1]+array[i+1]-2.0*array[i]);'''),
  ('''                s = 0.0;
                e = 0.0;
''', '''                s = array[i]<base_level ? sedi_rate*dtr : 0.0;
                e = 0.0;
'''),
  ('''                if (array[i]<base_level) s = sedi_rate*dtr;
                array[i]''', '''                array[i]'''))

# --- NormResidualCholmod: typed pointers, squared sum in a local, area dropped
E('NormResidualCholmod',
  ('''    int mode = 1;
''', '''    const double *fu = (const double*)Fu->x, *fp = (const double*)Fp->x;
'''),
  ('''#pragma omp parallel for shared( Fu, mode ) private( cc ) firstprivate( celvol ) reduction(+:resu)''', '''#pragma omp parallel for shared( fu ) private( cc ) reduction(+:resu)'''),
  ('''        if ( mode == 1 ) resu += ((double*)Fu->x)[cc]*((double*)Fu->x)[cc];//*celvol;
        if ( mode == 0 ) resu += ((double*)Fu->x)[cc];
''', '''        resu += pow(fu[cc], 2);
'''),
  ('''#pragma omp parallel for shared( Fp, mode ) private( cc ) firstprivate( celvol ) reduction(+:resp, Area)''', '''#pragma omp parallel for shared( fp ) private( cc ) reduction(+:resp)'''),
  ('''        Area += celvol;
        if ( mode == 1 ) resp += ((double*)Fp->x)[cc]*((double*)Fp->x)[cc];//*celvol;
        if ( mode == 0 ) resp += ((double*)Fp->x)[cc];
''', '''        const double r = fp[cc];
        resp += r*r;
'''))

# --- ExtractDiagonalScale: helper, loop over absolute positions
E('ExtractDiagonalScale',
  ('''        I1     = StokesA->Ic[i];
        locNNz = StokesA->Ic[i+1] - StokesA->Ic[i];
        for (J1=0;J1<locNNz; J1++) {
            j = StokesA->J[I1 + J1];
            if (i==j) StokesA->d[i] = StokesA->A[I1 + J1];
        }
''', '''        for (J1=StokesA->Ic[i]; J1<StokesA->Ic[i+1]; J1++) {
            if (StokesA->J[J1] != i) continue;
            StokesA->d[i] = StokesA->A[J1];
        }
'''))

# --- PureShearALE_X: one loop per side pair with pointers, displacement folded in
E('PureShearALE_X',
  ('''        if (mesh->BCv.type[c1] == 0) {
            if (model->free_surface == 0) {
                VzS += mesh->v_in[c1];
            }
            else {
                VzS += mesh->BCv.val[c1];
            }

            icount1++;
        }
''', '''        if (mesh->BCv.type[c1] == 0) {
            VzS += model->free_surface == 0 ? mesh->v_in[c1] : mesh->BCv.val[c1];
            ++icount1;
        }
'''),
  ('''    dxmin = VxW * model->dt;
    dxmax = VxE * model->dt;
''', ''),
  ('''    model->xmin +=  dxmin;
    model->xmax +=  dxmax;
''', '''    model->xmin = model->xmin + model->dt*VxW;
    model->xmax = model->xmax + model->dt*VxE;
'''),
  ('''    if (model->pure_shear_ALE == 2) model->zmax = MaxFreeSurfaceAltitude + 10.0e3/scaling.L;
    else         {
       model->zmax +=  dzmax;
    }
''', '''    model->zmax = model->pure_shear_ALE != 2 ? model->zmax + dzmax : MaxFreeSurfaceAltitude + 10.0e3/scaling.L;
'''))

# --- NormalizeDirector: helper on a pair
E('NormalizeDirector',
  ('''      nx            = nx_n[k];
      nz            = nz_n[k];
      norm          = sqrt(nx*nx + nz*nz);
      nx            = nx/norm;
      nz            = nz/norm;
      nx_n[k]       = nx;
      nz_n[k]       = nz;
''', '''      UnitVector( &nx_n[k], &nz_n[k] );
'''),
  ('''      nx            = nx_s[k];
      nz            = nz_s[k];
      norm          = sqrt(nx*nx + nz*nz);
      nx            = nx/norm;
      nz            = nz/norm;
      nx_s[k]       = nx;
      nz_s[k]       = nz;
''', '''      norm     = sqrt(pow(nx_s[k],2) + pow(nz_s[k],2));
      nx_s[k] /= norm;
      nz_s[k] /= norm;
'''), before='''static void UnitVector( DoodzFP *a, DoodzFP *b ) {
  const double n = sqrt((*a)*(*a) + (*b)*(*b));
  *a /= n;
  *b /= n;
}
''')

# --- FiniteStrainAspectRatio: symmetric tensor, discriminant once
E('FiniteStrainAspectRatio',
  ('''        CGzx = particles->Fxx[k]*particles->Fxz[k] + particles->Fzx[k]*particles->Fzz[k];
''', '''        CGzx = CGxz;
'''),
  ('''        U0zx = 1/t*CGzx;
''', '''        U0zx = U0xz;
'''),
  ('''        e1   = Tr/2.0 + sqrt( Tr*Tr/4.0 - Det );
        e2   = Tr/2.0 - sqrt( Tr*Tr/4.0 - Det );
''', '''        const double half = 0.5*Tr, disc = sqrt( half*half - Det );
        e1   = half + disc;
        e2   = half - disc;
'''))

# --- MarkerChainPolyFit: helper fits one line
E('MarkerChainPolyFit',
  ('''        topo->a0[ic] =  (topo->height0[ic+1] - topo->height0[ic]) / dx;
        topo->b0[ic] =  topo->height0[ic] - (mesh.xg_coord[ic]) * topo->a0[ic];
''', '''        FitLine( topo->height0+ic, mesh.xg_coord[ic], dx, topo->a0+ic, topo->b0+ic );
'''),
  ('''        topo->a[ic]  = (topo->height[ic+1] - topo->height[ic]) / dx;
''', '''        const double slope = (topo->height[ic+1] - topo->height[ic]) / dx;
        topo->a[ic]  = slope;
'''),
  ('''        topo->b[ic]  =  topo->height[ic] - (mesh.xg_coord[ic]) * topo->a[ic];''', '''        topo->b[ic]  =  topo->height[ic] - slope*mesh.xg_coord[ic];'''),
  before='''static void FitLine( const double *h, double x, double dx, double *a, double *b ) {
    *a = (h[1] - h[0])/dx;
    *b = h[0] - x*(*a);
}
''')

# --- KeepZeroMeanTopo: separate mean values, counters
E('KeepZeroMeanTopo',
  ('''    double mean_z = 0.0;
    for (int i=0; i<model->Nx; i++){
        mean_z += topo->height[i];
    }
    mean_z /= model->Nx;
    for (int i=0; i<model->Nx; i++) {
        topo->height[i] -= mean_z;
    }
    mean_z = 0.0;
''', '''    double sum = 0.0, mean_z = 0.0;
    for (int i=model->Nx-1; i>=0; i--) sum += topo->height[i];
    for (int i=0; i<model->Nx; i++) topo->height[i] = topo->height[i] - sum/model->Nx;
'''),
  ('''        if (topo_chain->phase[i] > -1) {
        mean_z += topo_chain->z[i];
        nmark  ++;
        }
''', '''        if (topo_chain->phase[i] <= -1) continue;
        nmark  += 1;
        mean_z += topo_chain->z[i];
'''))

# --- CorrectTopoIni: clamp as ternary, min
E('CorrectTopoIni',
  ('''        in              = ceil((distance/dx)+0.5) - 1;
        if (in<0)    in = 0;
        if (in>Ncx-1)in = Ncx-1;
''', '''        in              = ceil((distance/dx)+0.5) - 1;
        in              = in > Ncx-1 ? Ncx-1 : in;
        in              = in < 0 ? 0 : in;
''') if False else ('''        grid_topo       = (topo->b[in] + topo->a[in] * ( topo_chain->x[k] ));
        if ( topo_chain->z[k] > grid_topo ) {
            topo_chain->z[k]   = grid_topo;
        }
''', '''        grid_topo          = topo->a[in]*topo_chain->x[k] + topo->b[in];
        topo_chain->z[k]   = MINV( topo_chain->z[k], grid_topo );
'''))

# --- InterpVerticesToCentroidsDouble: flat loop, continue
E('InterpVerticesToCentroidsDouble',
  ('''    for (k=0; k<Ncx; k++) {
        for (l=0; l<Ncz; l++) {
            c0 = k + l*(Ncx);
            c1 = k + l*(Nx);
            
            if ( mesh->BCp.type[c0] != 30 &&  mesh->BCp.type[c0] != 31 ) {
                CentroidArray[c0] = 0.25*( VertexArray[c1] + VertexArray[c1+1] + VertexArray[c1+Nx] + VertexArray[c1+1+Nx] );
            }
        }
''', '''    for (l=0; l<Ncz; l++) {
        for (k=0; k<Ncx; k++) {
            c0 = k + l*(Ncx);
            c1 = c0 + l;
            if ( mesh->BCp.type[c0] == 30 ||  mesh->BCp.type[c0] == 31 ) continue;
            const double *lo = VertexArray + c1, *up = lo + Nx;
            CentroidArray[c0] = 0.25*(lo[0] + lo[1]) + 0.25*(up[0] + up[1]);
        }
'''))

# --- Interp_Grid2P: weights once, active node chosen first, accumulation in a local
E('Interp_Grid2P',
  ('''            if (tag[iSW]!=30 && tag[iSW]!=31) {
                PartField[k] +=  (1.0-dxm/dx)* (1.0-dzm/dz) * NodeField[iSW];
                sumW += (1.0-dxm/dx)* (1.0-dzm/dz);
            }
            else {
                PartField[k] +=  (1.0-dxm/dx)* (1.0-dzm/dz) * NodeField[iNW];
                sumW += (1.0-dxm/dx)* (1.0-dzm/dz);
            }
''', '''            const int sw = (tag[iSW]!=30 && tag[iSW]!=31) ? iSW : iNW;
            double val = (1.0-dxm/dx)*(1.0-dzm/dz)*NodeField[sw];
'''),
  ('''            if (tag[iSE]!=30 && tag[iSE]!=31) {
                PartField[k] += (dxm/dx)  * (1.0-dzm/dz)  * NodeField[iSE];
                sumW += (dxm/dx)* (1.0-dzm/dz);
            }
            else {
                PartField[k] += (dxm/dx)  * (1.0-dzm/dz)  * NodeField[iNE];
                sumW += (dxm/dx)* (1.0-dzm/dz);
            }
''', '''            val += (dxm/dx)*(1.0-dzm/dz)*((tag[iSE]==30 || tag[iSE]==31) ? NodeField[iNE] : NodeField[iSE]);
'''),
  ('''            if (tag[iNW]!=30 && tag[iNW]!=31) {
                PartField[k] +=''', '''            PartField[k] = val;
            if (tag[iNW]!=30 && tag[iNW]!=31) {
                PartField[k] +='''))
