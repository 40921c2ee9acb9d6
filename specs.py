"""which functions' effects decide which property (generic rule: lib/frozen.py)"""
from frozen import Spec, ALLOC

FUNCS = {
'C03': 'ReadInt2 ReadDou2 ReadChar ReadMatProps ReadPhaseDiagram ReadBin GetSetupFileName',
'C04': 'ScaleMe',
'C06': 'CreateDir CreateOutputHDF5 AddGroupToHDF5 AddFieldToGroup DoubleToFloat ScaleBack ScaleBackD WriteOutputHDF5 WriteOutputHDF5Particles WriteResiduals Interp_Phase2VizGrid',
'C07': 'ReadDataPowerLaw ReadDataLinear ReadDataGBS ReadDataExponential ReadDataGSE ReadDataKinetics',
'C08': 'GridAlloc GridFree PartAlloc PartFree NmodelAlloc NmodelFree SAlloc SFree AllocMat FreeMat AllocatePhaseDiagrams FreePhaseDiagrams FreeSparseSystems AllocateMarkerChain FreeMarkerChain AllocateDecompositionDecoupled FreeDecompositionDecoupled AllocateTempMatArraysDecoupled FreeTempMatArraysDecoupled DoodzCalloc DoodzMalloc DoodzRealloc DoodzFree',
'C09': 'AccumulatedStrain AccumulatedStrainII AddFieldToGroup AddPartCell AddPartVert AssignMarkerProperties AssignMarkerPropertiesInflow CheckSym ChemicalDirectSolve CountPartCell CountPartCell2 CountPartCell_OLD DirectStokesDecoupled DirectStokesDecoupledComp EnergyDirectSolve EvaluateStokesResidualDecoupled FindClosestPhaseVertex Interp_Grid2P Interp_Grid2P_centroids2 KillerSolver LoadBreakpointParticles LoadIniParticles LocalIterationViscoElastic LocalIterationViscoElasticGrainSize MakeBreakpointParticles MinMaxArray NonNewtonianViscosityGrid NonNewtonianViscosityGridAniso ParticleInflowCheck ReadBin ReadDataExponential ReadDataGBS ReadDataGSE ReadDataKinetics ReadDataLinear ReadDataPowerLaw ReadInputFile ReadMatProps ReadPhaseDiagram RemeshMarkerChain RheologicalOperators RunMDOODZ SetBCs SetParticles ShearModCompExpGrid UpdateAnisoFactor UpdateInputFile UpdateParticleStress ValidateInternalPoint ValidatePhase ValidateSetup Vertices2Particle ViscosityConcise ViscosityConciseAniso',
'C10': 'SetBCs SetParticles BuildInitialTopography ValidateInternalPoint ValidatePhase ValidateSetup SetPureShearBCVx SetPureShearBCVz SetSimpleShearBCVx SetSimpleShearBCVz SetPureOrSimpleShearBCVx SetPureOrSimpleShearBCVz IsEllipseCoordinates IsRectangleCoordinates DefaultTextFilename GetSetupFileName PartInit SetThermalPert',
'C11': 'BuildStokesOperatorDecoupled Xmomentum_InnerNodesDecoupled Zmomentum_InnerNodesDecoupled Continuity_InnerNodesDecoupled AddCoeff3 DomainDecompositionDecoupled MergeParallelMatrixDecoupled MergeParallelMatrix EvalNumberOfEquations',
'C12': 'BuildJacobianOperatorDecoupled Xjacobian_InnerNodesDecoupled3 Zjacobian_InnerNodesDecoupled3 DerivativesOnTheFly_n DerivativesOnTheFly_s PhaseRheologyLoop_v1 RheologicalOperators',
'C13': 'EvaluateStokesResidualDecoupled EvaluateRHS ApplyBC ExtractSolutions2 InitialiseSolutionVector ScaleVelocitiesRHSBack ScaleMatrix ExtractDiagonalScale BuildInitialSolutions BackToSolutionVector',
'C14': 'EnergyDirectSolve EvalNumEqTemp AddCoeffThermal ThermalSteps SetThermalPert UpdateAlphaCp MassSourceTerm FactorEnergyCHOLMOD SolveEnergyCHOLMOD TransposeA UpdateParticleEnergy EvalNumEqChem AddCoeffChem ChemicalDirectSolve',
'C15': 'ViscosityConcise LocalIterationViscoElastic LocalIterationViscoElasticGrainSize NonNewtonianViscosityGrid CohesionFrictionDilationGrid EffectiveStrainRate StrainRateComponents Softening HuetAveragingModel PartialMelting GenerateDeformationMaps PhaseRheologyLoop_v1',
'C16': 'UpdateDensity EvaluateDensity ItpRho1D Interpolate2Ddata ShearModCompExpGrid MeltFractionGrid PartialMelting ComputeLithostaticPressure InterpCentroidsToVerticesDouble InterpVerticesToCentroidsDouble DetectCompressibleCells ComputeMeanQuantitesForTimeSeries LogTimeSeries ExpandCentroidArray ReadPhaseDiagram ReadBin',
'C17': 'EvaluateCourantCriterion DefineInitialTimestep Check_dt_for_advection',
'C18': 'P2Mastah Interp_Grid2P Interp_Grid2P_centroids2 Interp_Grid2P_strain MarkerValue Centers2Particle Vertices2Particle V2P Compute4Cell Interp_Phase2VizGrid',
'C19': 'RogerGunther RogerGuntherII FirstOrderUpwindAdvection VelocitiesOnCenters VelocitiesOnVertices PureShearALE PureShearALE_X PureShearALE_Z isout isoutPart PutPartInBox',
'C20': 'AssignMarkerProperties AssignMarkerPropertiesInflow AddPartCell AddPartCell2 AddPartVert ParticleInflowCheck CountPartCell CountPartCell_OLD CountPartCell2 FindClosestPhase FindClosestPhase2 FindClosestPhaseVertex PutPartInBox PartInit TransmutateMarkers isoutPart isout',
'C21': 'AdvectFreeSurf InterpTopoPart2Grid MarkerChainPolyFit RemeshMarkerChain CorrectTopoIni SetTopoChainHorizontalCoords CellFlagging CleanUpSurfaceParticles SurfaceDensityCorrection SurfaceVelocity DiffuseAlongTopography KeepZeroMeanTopo AddPartSed TopoFun TopoFun0 BuildInitialTopography AllocateMarkerChain FreeMarkerChain',
'C22': 'UpdateParticlePressure UpdateParticleStress UpdateParticleEnergy UpdateParticleGrainSize UpdateParticleDensity UpdateParticleX UpdateParticleXpips UpdateParticlePhi UpdateParticleDivThermal UpdateMaxPT AccumulatedStrain AccumulatedStrainII DeformationGradient FiniteStrainAspectRatio InitialiseGrainSizeParticles TransmutateMarkers',
'C23': 'LineSearchDecoupled UpdateNonLinearity SolveStokesDecoupled SolveStokesDefectDecoupled EvaluateStokesResidualDecoupled KSPStokesDecoupled kspgcr DirectStokesDecoupled DirectStokesDecoupledComp DirectStokes KillerSolver',
'C24': 'RunMDOODZ',
'C26': 'ViscosityConciseAniso NonNewtonianViscosityGridAniso UpdateAnisoFactor AnisoFactorEvolv InitialiseDirectorVector NormalizeDirector Y2 I2 Solve2x2 HuetAveragingModel FiniteStrainAspectRatio RheologicalOperators',
'C27': 'SetGridCoordinates GridIndices InitialiseSolutionFields InterpCentroidsToVerticesDouble InterpVerticesToCentroidsDouble ExpandCentroidArray ComputeLithostaticPressure Diffuse_X SetUpModel_NoMarkers PureShearALE EvalNumberOfEquations',
'C28': 'DotProduct PermuteVector PermuteInverseVector NormResidualCholmod BuildInitialSolutions BackToSolutionVector DecompressCSRtoTriplets ArrayPlusArray ArrayMinusArray ArrayTimesScalar ArrayEqualArray ArrayEqualArrayI ArrayTimesScalarArray ArrayDividedScalarArray ArrayPlusScalarArray Initialise1DArrayChar Initialise1DArrayInt Initialise1DArrayDouble Initialise2DArray Initialise2DArrayInt SumArray MinMaxArray MinMaxArrayVal MinMaxArrayTagInt IsNanArray2DFP IsInfArray2DFP CheckSym ArrayTimesArray CheckArrays copy_cholmod_matrix_to_cs copy_cholmod_to_cs_matrix copy_cs_to_cholmod_matrix copy_cs_to_cholmod_matrix1 copy_vec_to_cholmod_dense copy_vec_to_cholmod_dense1 copy_cholmod_dense_to_cholmod_dense cholmod_dense_plus_cholmod_dense TransposeA DirectStokes DirectStokesDecoupled DirectStokesDecoupledComp KSPStokesDecoupled KillerSolver kspgcr FactorEnergyCHOLMOD SolveEnergyCHOLMOD MergeParallelMatrix MergeParallelMatrixDecoupled',
}
# functions specified under another property whose effects this property's statement covers too
ALSO = {
'C01': 'MakeBreakpointParticles LoadBreakpointParticles LoadIniParticles',
'C02': 'DeletePreviousBreakpoint',
'C03': 'UpdateInputFile',
'C11': 'EvaluateRHS',
'C12': 'ViscosityConcise ViscosityConciseAniso',
'C13': 'EvalNumberOfEquations UpdateNonLinearity StrainRateComponents',
'C14': 'MeltFractionGrid copy_cholmod_dense_to_cholmod_dense1 copy_cholmod_to_cs_matrix1',
'C15': 'ShearModCompExpGrid AccumulatedStrainII',
'C16': 'SurfaceDensityCorrection P2Mastah NonNewtonianViscosityGrid UpdateAlphaCp MassSourceTerm UpdateParticleDensity',
'C17': 'MinMaxArrayTag MinMaxArrayVal MinMaxArray',
'C19': 'AdvectFreeSurf Check_dt_for_advection ParticleInflowCheck V2P Vertices2Particle Centers2Particle',
'C20': 'CleanUpSurfaceParticles AddPartSed RogerGuntherII',
'C21': 'PureShearALE',
'C22': 'Interp_Grid2P_centroids2 Interp_Grid2P_strain Interp_Grid2P AssignMarkerProperties',
'C23': 'ExtractSolutions2 BuildInitialSolutions BackToSolutionVector NormResidualCholmod',
'C26': 'DerivativesOnTheFly_n DerivativesOnTheFly_s DeformationGradient P2Mastah RogerGuntherII',
'C27': 'PureShearALE_X PureShearALE_Z GridAlloc',
'C28': 'copy_cholmod_dense_to_cholmod_dense1 copy_cholmod_to_cs_matrix1 DomainDecompositionDecoupled ExtractDiagonalScale ScaleMatrix MinMaxArrayTag MinMaxArrayI MinMaxArrayPart MinMaxArrayTagChar',
}
NOISE = ALLOC | {'clock', 'strlen', 'omp_get_num_threads', 'omp_get_max_threads', 'omp_get_thread_num', 'umfpack_di_report_status', 'umfpack_di_report_info', 'H5open', 'H5check_version', 'llvm.trap'}


def significant(n): return n not in NOISE


def specs(pid):
    if pid == 'C09': return [Spec(n, keep=lambda p: False, calls=lambda n: n == 'exit', ret=False, ordered=False) for n in FUNCS['C09'].split()]
    return [Spec(n, calls=significant, ret=True) for n in dict.fromkeys((FUNCS.get(pid, '') + ' ' + ALSO.get(pid, '')).split())]
