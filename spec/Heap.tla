-------------------------------- MODULE Heap --------------------------------
(***************************************************************************)
(* The caller's objects and the operations of the package on them (C22).   *)
(* An operation may read the objects it is given; the only one that writes *)
(* is the computation of extra statistics, which adds keys to the sample   *)
(* it is given.                                                            *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets
Objects == {"posteriors", "injections", "grid", "massdata", "spindata", "detector", "hyper", "sample", "samples", "table", "evidences", "bounds", "massmodels"}
\* operation -> objects it is given
Uses == [build_likelihood |-> {"posteriors", "evidences"},
         likelihood |-> {"hyper"},
         likelihood_converted |-> {"hyper"},
         rate_likelihood |-> {"hyper"},
         rate_sample |-> {"hyper"},
         extra |-> {"sample"},
         resample_dict |-> {"hyper"},
         resample_list |-> {"samples"},
         resample_table |-> {"table"},
         build_resampling |-> {"injections", "massmodels"},
         build_grid |-> {"grid", "massmodels"},
         efficiency |-> {"hyper"},
         grid_value |-> {"hyper"},
         mass_model |-> {"massdata", "hyper"},
         mass_function |-> {"massdata", "hyper"},
         smoothed |-> {"massdata", "hyper"},
         spline_mass |-> {"massdata", "hyper"},
         spin_function |-> {"spindata", "hyper"},
         spline_spin |-> {"spindata", "hyper"},
         joint_spin |-> {"spindata", "hyper"},
         redshift |-> {"spindata", "hyper"},
         densities |-> {"bounds"},
         frame |-> {"detector", "hyper"},
         cosmo_model |-> {"detector", "hyper"},
         beta_parameters |-> {"hyper"},
         metadata |-> {},
         hyper_model |-> {"massdata", "hyper"}]
Ops == DOMAIN Uses
Writes(op) == IF op = "extra" THEN {"sample"} ELSE {}
=============================================================================
