------------------------------- MODULE Gridpp -------------------------------
(* The library as a state machine: the state is the set of objects a session *)
(* holds, an action is one operation with its arguments and its outcome.     *)
EXTENDS Assim

InitState == [objs |-> <<>>, structs |-> <<>>]

Allowed(st, e) ==
  CASE e.op \in ObjOps -> ObjAllowed(st, e)
    [] e.op \in StructOps -> StructAllowed(st, e)
    [] e.op \in {"nearest_gg2", "nearest_gg3", "nearest_gp2", "nearest_gp3", "nearest_pp1", "nearest_pp2", "nearest_pg1", "nearest_pg2"} -> DownscaleOk(st, e, "Nearest")
    [] e.op \in {"bilinear_gg2", "bilinear_gg3", "bilinear_gp2", "bilinear_gp3"} -> DownscaleOk(st, e, "Bilinear")
    [] e.op \in {"downscaling_gg2", "downscaling_gg3", "downscaling_gp2", "downscaling_gp3"} -> DownscaleOk(st, e, e.in.d)
    [] e.op \in {"simple_gradient_gg2", "simple_gradient_gg3", "simple_gradient_gp2", "simple_gradient_gp3"} -> SimpleGradientOk(st, e)
    [] e.op \in {"full_gradient_gg2", "full_gradient_gg3", "full_gradient_gp2", "full_gradient_gp3"} -> FullGradientOk(st, e)
    [] e.op = "smart" -> SmartOk(st, e)
    [] e.op = "neighbourhood_search" -> SearchOk(e)
    [] e.op = "calc_gradient" -> CalcGradientOk(e)
    [] e.op = "downscale_probability" -> ProbabilityOk(st, e)
    [] e.op = "mask_consensus" -> MaskOk(st, e, FALSE)
    [] e.op = "mask_quantile" -> MaskOk(st, e, TRUE)
    [] e.op = "gridding_g" -> GriddingOk(st, e, "g")
    [] e.op = "gridding_p" -> GriddingOk(st, e, "p")
    [] e.op = "gridding_nearest_g" -> GriddingNearestOk(st, e, "g")
    [] e.op = "gridding_nearest_p" -> GriddingNearestOk(st, e, "p")
    [] e.op \in {"count_gp", "count_gg", "count_pg", "count_pp"} -> CountOk(st, e)
    [] e.op \in {"distance_gp", "distance_gg", "distance_pg", "distance_pp"} -> DistanceOk(st, e)
    [] e.op = "fill" -> FillOk(st, e)
    [] e.op = "fill_missing" -> FillMissingOk(e)
    [] e.op = "doping_square" -> DopingOk(st, e, FALSE)
    [] e.op = "doping_circle" -> DopingOk(st, e, TRUE)
    [] e.op = "staticcorr_points" -> StaticCorrOk(st, e)
    [] e.op = "calc_distance" -> CalcDistanceOk(e)
    [] e.op = "calc_distance_fast" -> CalcDistanceFastOk(e)
    [] e.op = "convert_coordinates" -> ConvertOk(e)
    [] e.op = "window" -> WindowOk(e)
    [] e.op = "neighbourhood2" -> NeighbourhoodOk(e)
    [] e.op = "neighbourhood_bf2" -> NeighbourhoodOk(e)
    [] e.op \in {"neighbourhood3", "neighbourhood_bf3", "neighbourhood_ens"} -> Neighbourhood3Ok(e)
    [] e.op = "neighbourhood_quantile2" -> NeighbourhoodQuantileOk(e, FALSE)
    [] e.op \in {"neighbourhood_quantile3", "neighbourhood_quantile_ens"} -> NeighbourhoodQuantileOk(e, TRUE)
    [] e.op = "nqf2" -> NqfOk(e, FALSE, FALSE)
    [] e.op \in {"nqf3", "nqf3e"} -> NqfOk(e, TRUE, FALSE)
    [] e.op = "nqf2v" -> NqfOk(e, FALSE, TRUE)
    [] e.op = "nqf3v" -> NqfOk(e, TRUE, TRUE)
    [] e.op = "nthresholds2" -> ThresholdsOk(e, FALSE)
    [] e.op = "nthresholds3" -> ThresholdsOk(e, TRUE)
    [] e.op = "calc_statistic" -> CalcStatisticOk(e)
    [] e.op = "calc_statistic2" -> CalcStatistic2Ok(e)
    [] e.op = "calc_quantile" -> CalcQuantileOk(e)
    [] e.op = "calc_quantile2" -> CalcQuantile2Ok(e)
    [] e.op = "calc_quantile3" -> CalcQuantile3Ok(e)
    [] e.op = "num_missing_values" -> NumMissingOk(e)
    [] e.op = "is_valid" -> IsValidOk(e)
    [] e.op = "get_lower_index" -> LowerIndexOk(e)
    [] e.op = "get_upper_index" -> UpperIndexOk(e)
    [] e.op = "interpolate" -> Interpolate0Ok(e)
    [] e.op = "interpolate1" -> Interpolate1Ok(e)
    [] e.op = "init" -> InitOk(e)
    [] e.op = "get_statistic" -> GetStatisticOk(e)
    [] e.op = "calc_even_quantiles" -> IF e.in.num < 0 THEN TRUE ELSE IsOk(e) /\ EvenQuantilesOk(e.out, e.in.x, e.in.num)
    [] e.op = "apply_curve0" -> Apply0Ok(e)
    [] e.op = "apply_curve1" -> Apply1Ok(e)
    [] e.op = "apply_curve2" -> Apply2Ok(e)
    [] e.op = "apply_curve3" -> Apply3Ok(e)
    [] e.op = "quantile_mapping_curve" -> QuantileMappingOk(e)
    [] e.op = "monotonize_curve" -> MonotonizeOk(e)
    [] e.op = "metric_optimizer_curve" -> OptimizerCurveOk(e)
    [] e.op = "get_optimal_threshold" -> OptimalThresholdOk(e)
    [] e.op = "calc_score4" -> Score4Ok(e)
    [] e.op = "calc_score3" -> ScoreVecOk(e, e.in.threshold, e.in.threshold)
    [] e.op = "calc_score3f" -> ScoreVecOk(e, e.in.threshold, e.in.fthreshold)
    [] e.op = "neighbourhood_score" -> NeighbourhoodScoreOk(st, e)
    [] e.op = "gamma_inv" -> GammaInvOk(e)
    [] e.op = "transform" -> TransformOk(e)
    [] e.op = "transform_roundtrip" -> RoundtripOk(e)
    [] e.op \in AssimOps -> AssimOk(st, e)
    [] e.op \in DiagnosticOps -> DiagnosticOk(e)
    [] OTHER -> FALSE

After(st, e) == IF e.op \in ObjOps THEN ObjAfter(st, e) ELSE IF e.op \in StructOps THEN StructAfter(st, e) ELSE st
=============================================================================
