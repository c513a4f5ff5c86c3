"""Per property: design specifications, driver shards, trace specification."""
PROPS = {
    "C01": dict(design=[dict(module="BackendDesign")], trace="BackendTrace", shards=8,
                assumptions=["the plugin registrations are fixed while the process runs",
                             "cupy is not installed; it stands for a backend that is not available"]),
    "C02": dict(trace="EquivTrace", design=[dict(module="EquivDesign")], shards=8,
                assumptions=["values of different modes are compared at relative tolerance 1e-8 (2e-5 where jax evaluates the beta function)",
                             "a mass at the limit of a taper of zero width is not judged", "spline models are evaluated outside of compiled code first"]),
    "C03": dict(design=[dict(module="DensityDesign")], trace="DensityTrace", shards=4,
                assumptions=["closed-form values compared at relative tolerance 1e-8 against 36-digit arithmetic"]),
    "C11": dict(trace="LikelihoodTrace", design=[dict(module="LikelihoodDesign", cfg="LikelihoodDesign")], shards=6,
                assumptions=["population models of the drivers are polynomial/exponential functions known to the specification"]),
    "C12": dict(trace="LikelihoodTrace", design=[dict(module="LikelihoodDesign")], shards=6,
                assumptions=["rate samples are compared with the Gamma distribution function within 6 standard errors"]),
    "C13": dict(trace="LikelihoodTrace", design=[dict(module="LikelihoodDesign")], shards=8,
                assumptions=["uncertainties within 1e-9 of the threshold are not judged"]),
    "C16": dict(trace="LikelihoodTrace", design=[dict(module="LikelihoodDesign")], shards=6),
    "C17": dict(trace="SelectionTrace", design=[dict(module="SelectionDesign")], shards=6,
                assumptions=["efficiencies within 1e-9 of the convergence threshold are not judged"]),
    "C18": dict(trace="SelectionTrace", design=[dict(module="GridDesign")], shards=4,
                assumptions=["grids are products of ascending axes with at least two distinct points each"]),
    "C14": dict(trace="IngestTrace", design=[dict(module="IngestDesign")], shards=4,
                assumptions=["row frequencies are compared within 6 standard deviations"]),
    "C15": dict(trace="IngestTrace", design=[dict(module="IngestDesign")], shards=8,
                assumptions=["drawn frequencies are compared within 6 standard deviations"]),
    "C19": dict(trace="ConversionTrace", design=[dict(module="ConversionDesign")], shards=4),
    "C04": dict(trace="MassTrace", design=[dict(module="MassDesign")], shards=6,
                assumptions=["limits of a range are judged only where the limit is exactly representable", "values compared at relative tolerance 2e-8"]),
    "C05": dict(trace="MassTrace", design=[dict(module="SmoothDesign")], shards=8,
                assumptions=["the normalisation grid of the model is part of its configuration and is recomputed in the specification", "the taper below exp(-1000) counts as zero"]),
    "C07": dict(trace="SpinTrace", design=[dict(module="SpinDesign")], shards=6,
                assumptions=["the normalisation of the joint model is compared at the accuracy of its 500 x 250 grid", "end points of beta densities are not judged"]),
    "C08": dict(trace="SplineTrace", design=[dict(module="SplineDesign")], shards=6,
                assumptions=["nodes are evenly spaced (in the logarithm for logarithmic nodes), as the interpolant of the package requires", "at least four nodes"]),
    "C09": dict(trace="RedshiftTrace", design=[dict(module="RedshiftDesign")], shards=6,
                assumptions=["integrals over redshift are compared at the accuracy of a 2500 point grid, everything else at 1e-8", "flat cosmologies without radiation, as in wcosmo"]),
    "C10": dict(trace="FrameTrace", design=[dict(module="FrameDesign")], shards=6,
                assumptions=["the redshift at a distance is compared at relative tolerance 2e-4 in the distance, the accuracy of the tabulated inversion; everything else at 1e-9",
]),
    "C23": dict(trace="NamesTrace", design=[dict(module="NamesDesign")], shards=8,
                assumptions=["the hyper model is bilby.hyper.model.Model, which passes the declared names"]),
    "C22": dict(trace="HeapTrace", design=[dict(module="HeapDesign")], shards=8,
                assumptions=["the population models and selection functions that the caller supplies do not modify their arguments"]),
    "C06": dict(trace="HistoryTrace", design=[dict(module="HistoryDesign"), dict(module="HistoryDesign", cfg="HistoryCases")], shards=8,
                assumptions=["the caller does not modify a dataset between evaluations", "spline models are evaluated outside of compiled code first"]),
    "C21": dict(trace="LikelihoodTrace", design=[dict(module="LikelihoodDesign")], shards=8,
                assumptions=["hyper models that the caller supplies are built without the cache of bilby, which does not work in compiled code", "spline models are evaluated outside of compiled code first"]),
    "C20": dict(trace="LikelihoodTrace", design=[dict(module="LikelihoodDesign")], shards=8,
                assumptions=["the key of the predictive draws is fixed in the package, so the distribution of a draw is judged by its support: samples of negligible weight are never drawn"]),
    "C24": dict(trace="AnalysisTrace", design=[dict(module="AnalysisDesign")], shards=8,
                assumptions=["samples within rounding of a limit of the mass range do not occur (they are random)", "weights are compared at 1e-5 (redshift grids), 2e-3 with the joint spin model (its grid), 1e-2 in the detector frame (tabulated distances)"]),
}
