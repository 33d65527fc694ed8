prop("P01", "Link functions are inverse pairs with correct derivatives",
     "For every built-in link, mapping a mean to the linear-predictor scale and back returns the same mean (and vice versa), over the whole domain of the link. The first and second derivative each link reports are the true derivatives of its forward map.",
     ["inputs"], "every mean inside the link's domain / every linear predictor",
     "a derivative or inverse that is wrong only for part of the domain changes estimates silently; the stable tests never call most links",
     [PY + "exp_fam.py"], [("Link.f / fi / dy1 / dy2 of Logit, Identity, LOG, LOGb", PY + "exp_fam.py")])
prop("P02", "Exponential families report the right densities, variances and deviances",
     "For the Gaussian, Gamma, inverse Gaussian, Poisson, Binomial and scaled-t families the per-observation log density, total log-likelihood, variance function and its derivative, deviance contributions and total deviance are the textbook quantities for every response, mean and scale. The score of the log density is (y-mu)/(scale V(mu)), the reported gradient with respect to regression coefficients is the derivative of the log-likelihood for every link, and the scaled-t derivatives with respect to the mean and its extra parameters match the log-likelihood. Inputs are not modified.",
     ["inputs"], "every response in the support, every mean and scale, every model matrix and coefficient vector at small sizes",
     "the stable tests never fit these families through the GAM path; a wrong normalising term, missing factor or a wrong boundary response value (0 counts) would go unnoticed",
     [PY + "exp_fam.py"], [("Gaussian, Gamma, InvGauss, Poisson, Binomial, ScaledT: lp, llk, D, deviance, V, dVy1, dllkdcoef", PY + "exp_fam.py")])
prop("P03", "Location-scale families report true densities, derivatives and residuals",
     "For the Gaussian, Gamma and multinomial location-scale families the reported log density (and log cumulative density where available) is the textbook one for every response and parameter vector. First derivatives and mixed second derivatives with respect to the distribution parameters are the true derivatives; pure second derivatives are either the true ones or their expectation, as documented. Residuals and multinomial class probabilities follow their definition.",
     ["inputs"], "every response in the support and every admissible parameter vector at small sizes",
     "derivative errors only slow or bias Newton steps of particular families; the stable tests pin a few fits only",
     [PY + "exp_fam.py"], [("GAUMLSS, GAMMALS, MULNOMLSS: lp, lcp, llk, d1, d2, d2m, get_resid", PY + "exp_fam.py")])
prop("P04", "Coefficient gradients, Hessians and working weights obey the chain rule",
     "For any location-scale family and any links, the gradient and Hessian with respect to all coefficients that the solvers use are the derivatives of the log-likelihood, with the right size and coefficient order, whatever the pattern of zeros in the model matrices. Fisher and Newton working responses and weights reproduce the score and the expected or observed curvature of every exponential family and link. The wrapper exposing GAMM and GAMMLSS families as general smooth families reports the same log-likelihood and its true gradient, and Hessians assembled from selected columns hold exactly those rows and columns.",
     ["inputs", "configurations"], "every model matrix (including structural zeros), coefficient vector and response at small sizes, 1-4 distribution parameters, all links",
     "no stable test covers these solvers; a swapped mixed-derivative block or a weight that is wrong for one link only slows or biases fits",
     [PY + "gamm_solvers.py", PY + "utils.py", PY + "exp_fam.py"],
     [("deriv_transform_mu_eta / deriv_transform_eta_beta / PIRLS_pdat_weights / PIRLS_newton_weights", PY + "gamm_solvers.py"),
      ("GAMLSSGSMMFamily", PY + "utils.py"), ("GSMMFamily.gradient / jcolhessian / jhessian / hessian", PY + "exp_fam.py")])
prop("P05", "Proportional hazards: partial likelihood, hazard, survival, residuals",
     "For proportional hazards models the reported log-likelihood is the Breslow partial log-likelihood for any covariates, coefficients, ties and censoring pattern; gradient and Hessian are its derivatives. The cumulative baseline hazard is the Breslow estimator, survival predictions at any time (also between, before and after event times) and their standard errors follow from it, and martingale and deviance residuals follow their definition. Every answer depends only on the arguments of the call, not on what the family object was asked before.",
     ["inputs", "histories"], "every covariate matrix and coefficient vector at small sizes, all censoring patterns, ties, evaluation times, two-call histories",
     "no stable test touches this family; tie handling, risk-set direction and stale state need particular data or call sequences",
     [PY + "exp_fam.py", CPP + "hazard.cpp"], [("PropHaz.llk / gradient / hessian / get_baseline_hazard / get_survival / get_resid", PY + "exp_fam.py"), ("llk2 / grad2 / hessian", CPP + "hazard.cpp")])
prop("P06", "Multivariate Gaussian family: likelihood and derivatives agree",
     "For the multivariate Gaussian family the reported log-likelihood is the multivariate normal one (up to its constant) for the precision factor encoded by the extra coefficients; the gradient and the Hessian are its first and second derivatives with respect to all mean coefficients and covariance parameters, for every link and also when means share a model matrix. Residuals are the decorrelated, standardised ones and predictions are the inverse links of the linear predictors.",
     ["inputs", "configurations"], "every data set, model matrix and coefficient vector at small sizes, up to 3-4 means, identity and log links, shared matrices",
     "no stable test touches this family; an error in one block of the Hessian or for one link only slows or biases fits",
     [PY + "exp_fam.py"], [("MultiGauss.llk / gradient / jcolhessian / hessian / getR / get_resid / predict", PY + "exp_fam.py")])
prop("P07", "HSMM log-likelihood sums over every state and duration history",
     "The log-likelihood a hidden semi-Markov model reports for its data equals, summed over independent series, the logarithm of the total probability of all admissible sequences of states and durations. This holds for all combinations of the start/end-of-series options, fixed or estimated (also time-varying or per-series) transition, initial and duration probabilities, several signals, shared predictors, and for event-template models with or without autocorrelated noise.",
     ["inputs", "configurations", "histories"],
     "every observation density, duration distribution, transition matrix, initial distribution and data value for small numbers of states, durations and time points, all option combinations",
     TESTS + " with one pinned value each; a recursion that drops or double counts particular histories needs specific options or densities to show",
     [PY + "hsmm.py", CPP + "hsmm/llk.cpp"],
     [("HSMMFamily.llk / _compute_series_probs", PY + "hsmm.py"), ("forward recursion llkf", CPP + "hsmm/llk.cpp")])
prop("P08", "HSMM gradient is the derivative of the HSMM log-likelihood",
     "For hidden semi-Markov models, the gradient returned for a coefficient vector is, entry by entry and in coefficient order, the derivative of the reported log-likelihood with respect to that coefficient. This holds for the observation, duration, transition and initial-state coefficients, under every start/end option, shared predictors, time-varying models, several series and signals, and event-template models with or without autocorrelated noise.",
     ["inputs", "configurations"],
     "every coefficient vector, model matrix, density and data value at small sizes, all option combinations",
     TESTS + " and compare with finite differences at one point; options such as time-varying durations are not combined",
     [PY + "hsmm.py", CPP + "hsmm/llk.cpp"],
     [("HSMMFamily.gradient", PY + "hsmm.py"), ("llkgrad / llkgrad_hmp recursions", CPP + "hsmm/llk.cpp")])
prop("P09", "Viterbi decoding returns a most probable state and duration history",
     "For every hidden semi-Markov model and data set, the decoded state sequence (with its remaining duration) of each series is an admissible history under the model's start/end options, and no other admissible history has a higher joint probability. Holds for fixed, estimated, time-varying and per-series transition models, several signals, and event-template models with or without autocorrelated noise.",
     ["inputs", "configurations", "histories"], "every set of densities, duration, transition and initial probabilities at small sizes, all option combinations; the decoded history is compared with all admissible ones",
     TESTS + "; a dropped predecessor or wrong duration index only changes the path for particular data",
     [PY + "hsmm.py", CPP + "hsmm/decode.cpp"], [("HSMMFamily.decode_viterbi", PY + "hsmm.py"), ("viterbi recursion and backtracking", CPP + "hsmm/decode.cpp")])
prop("P10", "Sampled state sequences follow the posterior distribution",
     "The probability with which posterior state sampling draws a history of states and durations equals the posterior probability of that history given all data of the series, for every model, data set and start/end option, including time-varying durations and transitions and autocorrelated event-template models. Inadmissible histories are never drawn.",
     ["inputs", "configurations", "schedules"], "every outcome of the random draws (nondeterministic choice, weights tracked symbolically), every density and probability at small sizes",
     TESTS + " with fixed seeds; a bias in one step of the backward recursion is invisible in a few draws",
     [PY + "hsmm.py", CPP + "hsmm/decode.cpp"], [("HSMMFamily.sample_posterior_states", PY + "hsmm.py"), ("sample_backwards", CPP + "hsmm/decode.cpp")])
prop("P11", "HSMM residuals follow the model's one-step-ahead predictions",
     "Forward residuals of a hidden semi-Markov model are the model's cumulative probability of each observation given all earlier ones in the series (optionally mapped to the normal scale); predictive residuals are the cumulated differences between observation and one-step-ahead expectation, standardised by their running scale, separately per signal. Duration residuals average, per series and state, the residual of each run of the decoded or sampled state sequence under the duration model that applies to that run (first run or later, entry time, that series' own transition model). Holds for all options and for event-template models with autocorrelated noise.",
     ["inputs", "configurations", "histories"], "every density, cumulative density, mean and observation at small sizes; all decoded/sampled sequences",
     TESTS + " with pinned values for single signals; entry-time, multi-signal and last-run handling are not sampled",
     [PY + "hsmm.py", CPP + "hsmm/resid.cpp"], [("HSMMFamily.get_resid / _compute_dur_res_series", PY + "hsmm.py"), ("forward_resid / predictive_resid", CPP + "hsmm/resid.cpp")])
prop("P12", "Spline bases are B-splines on the covariate's range",
     "For every covariate value, range, number of functions and degree, the basis functions are the B-splines of that degree over equally spaced knots covering the range: non-negative, local, and summing to one inside the range. Without explicit limits the range is that of the data. Impulse-response bases are zero before their event and afterwards follow the basis as a function of the time since the event. Tensor bases are all products of the marginal functions, in the documented order.",
     ["inputs", "configurations"], "every covariate value (symbolic, also outside the range), every location and width of the range, degree 0-4",
     "no stable test checks a basis value; a wrong knot or boundary rule shifts every smooth slightly",
     [PY + "smooths.py"], [("B_spline_basis / convolve_event / TP_basis_calc", PY + "smooths.py")])
prop("P13", "Penalties are the documented quadratic forms, with roots and ranks",
     "Every penalty a term can carry is, as a quadratic form in the coefficients of the unconstrained functions, the documented one: sums of squared differences of the requested order, weighted identity, event-distance weighted differences, tensor penalties over the marginals, all after the chosen identifiability constraint and dropped coefficients. The returned root reproduces the penalty, the rank is that of the matrix, embedding places it at the coefficients of its term, and merging penalties that share a smoothing parameter (also over several models) and splitting them again loses and duplicates nothing.",
     ["inputs", "configurations", "histories"], "every coefficient vector and weight (symbolic), all constraint types, orders 0-3, small numbers of functions, sequences of merge/split",
     "no stable test inspects a penalty; a wrong row or rank still gives a positive semi-definite matrix and a plausible fit",
     [PY + "penalties.py", PY + "custom_types.py"], [("DifferencePenalty / IdentityPenalty / DerivativePenalty / TP_pen / embed_in_S_sparse / embed_in_Sj_sparse / embed_shared_penalties", PY + "penalties.py")])
prop("P14", "Model matrices contain exactly the documented columns, for data and new data",
     "For every data set and formula, the model matrix holds for each term exactly its documented columns: intercept, dummy-coded factors, products for interactions, (constrained) spline functions per level of a factor or times a continuous variable, impulse responses per series, random intercepts, slopes and factor smooths. Coefficient counts, names and per-term indices match these columns; constrained smooths sum to zero over the data; selecting a term keeps its columns only. Rows with a missing response are left out. Predictions for new data evaluate the same functions on the new rows, and term predictions add up to the total.",
     ["inputs", "configurations"], "every value of the unknown covariates and coefficients (symbolic), 2-7 rows, all term types and constraint types, new data",
     "no stable test inspects a model matrix; a column built for the wrong level or coefficient still gives a fit",
     [PY + "formula.py", PY + "terms.py", PY + "smooths.py", "src/mssm/models.py"],
     [("Formula / build_model_matrix / build_sparse_matrix_from_formula", PY + "formula.py"), ("build_matrix and get_coef_info of every term", PY + "terms.py"), ("GAMM.predict", "src/mssm/models.py")])
prop("P15", "Sparse factorizations and linear solves behind every fit",
     "For every symmetric positive definite matrix the (permuted) Cholesky routines return a lower triangular factor with positive diagonal that reproduces the (permuted) matrix, and report failure exactly when there is none. The penalized least-squares routines return coefficients that solve the penalized normal equations together with the factor, or inverse factor, of X'X+S under the returned permutation; undoing the permutation gives the inverse. The QR route returns the same solution. Triangular solves, inverses of triangular factors and permutations are exact.",
     ["inputs"], "every matrix, penalty root and right-hand side of the stated sparsity patterns (up to 4x4 and 5x5 triangular)",
     "no stable test calls these routines with anything but one well-conditioned model; a wrong permutation or a symmetric half that is ignored shows only for particular sparsity patterns",
     [PY + "matrix_solvers.py", CPP + "eigen_solvers.cpp"],
     [("cpp_chol / cpp_cholP / cpp_solve_* / compute_Linv / apply_eigen_perm", PY + "matrix_solvers.py"), ("chol / cholP / solve_am / solve_coef / solve_L / solve_coef_pqr2 / solve_tr", CPP + "eigen_solvers.cpp")])
prop("P16", "Fits of additive models solve the penalized least-squares problem",
     "At given smoothing parameters, a fitted Gaussian additive model returns coefficients that solve the penalized normal equations of its data (with offsets, missing responses and autocorrelated errors within series taken into account), a coefficient covariance that inverts the penalized cross product, fitted values, residuals (raw, deviance and decorrelated), scale, total and per-term effective degrees of freedom, log-likelihood, Hessian and penalty that all belong to these coefficients. A collinear column is dropped, not counted. One iteration of a generalized model solves the same problem for the working response and Fisher weights of its family and link at the current means, leaving out observations without finite weights.",
     ["inputs", "configurations"], "every response, offset, smoothing parameter, autocorrelation and (where stated) covariate for small formulas of every term type; Cholesky, QR and inverse-free routes",
     "the stable tests fit no additive model; an error in one summary, or only with offsets, missing data or autocorrelation, leaves fits plausible",
     [PY + "gamm_solvers.py", "src/mssm/models.py", PY + "utils.py", PY + "matrix_solvers.py", CPP + "eigen_solvers.cpp"],
     [("solve_gamm_sparse / init_step_gam / update_PIRLS / update_coef / update_scale_edf / calculate_edf", PY + "gamm_solvers.py"), ("GAMM.fit / get_llk / get_resid", "src/mssm/models.py"), ("computeAr1Chol", PY + "utils.py")])
prop("P17", "Smoothing parameter updates follow the restricted likelihood",
     "For every set of penalties (several per term, repeated over factor levels, sharing one smoothing parameter, separated by unpenalized coefficients) the total penalty, its pseudo-inverse and its root belong to each other, and for each smoothing parameter the derivative of the log generalized determinant, the trace with the covariance, the quadratic form in the coefficients and the resulting degrees of freedom are those of its own penalty. The update of a smoothing parameter is the generalized Fellner-Schall update from these quantities, points uphill on the restricted likelihood, and stays within its bounds; frozen parameters do not move; extending a step keeps its direction and bounds, and undoing it restores the step exactly.",
     ["inputs", "configurations", "histories"], "every smoothing parameter, coefficient vector, factor of the penalized Hessian, trace and scale; sixteen layouts of penalties; every extension method",
     "the stable tests look at no smoothing parameter; a trace attributed to the wrong parameter only makes estimates of some formulas converge elsewhere",
     [PY + "gamm_solvers.py", PY + "penalties.py", PY + "matrix_solvers.py"],
     [("compute_S_emb_pinv_det / compute_lgdetD_bsb / calculate_edf / calculate_term_edf / step_fellner_schall_sparse / grad_lambda / extend_lambda_step / undo_extension_lambda_step / init_step_gam", PY + "gamm_solvers.py"), ("compute_B", PY + "matrix_solvers.py"), ("combine_shared_penalties / split_shared_penalties / sort_penalties", PY + "penalties.py")])
prop("P18", "Step control never accepts a worse step and fits end in a consistent state",
     "Whatever values the deviance takes along the way, a coefficient step of a generalized additive model is accepted in full if it does not increase the penalized deviance, otherwise halved as often as needed and no more, and abandoned for the old coefficients when no halving helps. However a fit ends (converged, at the maximum number of outer or inner iterations, after smoothing parameter steps that were extended, taken back or halved), the returned linear predictor, means, penalty and Hessians belong to the returned coefficients and smoothing parameters, observations without finite weights contribute nothing, and smoothing parameters stay within their bounds.",
     ["inputs", "histories", "configurations"], "every sequence of deviances (one unknown per evaluation, up to 7 evaluations), response, offset and coefficient; up to 3 outer and 3 inner iterations; all smoothing parameter controls",
     "a state left over from a rejected step appears only for particular deviance sequences or iteration limits; the stable tests fit no such model",
     [PY + "gamm_solvers.py", "src/mssm/models.py"],
     [("correct_coef_step / correct_lambda_step / solve_gamm_sparse", PY + "gamm_solvers.py"), ("GAMM.fit", "src/mssm/models.py")])
prop("P19", "Reparameterization and restricted likelihood agree with the model as stated",
     "For every set of penalties and smoothing parameters the similarity transform used for stability returns an orthogonal change of coordinates per term, in which the transformed penalties, their roots and their weighted total are those of the model (no penalty lost, the null space last), and its log-determinant, pseudo-inverse and rank are those of the total penalty; transforming a whole model (matrices, coefficients, penalties, over several formulas) leaves the linear predictors and penalties unchanged and can be undone. The restricted likelihood is the penalized log-likelihood plus half the log generalized determinant of the penalty less half the log-determinant of the penalized Hessian, with the constant of the null space for single-formula models; the scores of fitted models and of candidate smoothing parameters are that value at their own estimates, offsets included.",
     ["inputs", "configurations"], "every smoothing parameter, coefficient vector, scale and arrow-shaped Hessian; 24 penalty layouts, 11 model layouts; every response and offset for the candidate scores",
     "only a handful of numeric scores are pinned, in tests that need data from the network; a penalty dropped in one nesting changes only models with that nesting",
     [PY + "repara.py", PY + "utils.py", "src/mssm/models.py"],
     [("reparam / reparam_model", PY + "repara.py"), ("REML / compute_reml_candidate_GAMM", PY + "utils.py"), ("GAMM.get_reml / get_llk", "src/mssm/models.py")])
prop("P20", "Fits of location-scale models step correctly and end in a consistent state",
     "For models of location, scale and shape, a Newton step solves the penalized score equations, with factor and inverse of the penalized curvature belonging to it. Whatever values the log-likelihood takes, a step is accepted in full if it does not decrease the penalized log-likelihood, otherwise halved as often as needed and no more, and abandoned for the old coefficients if no halving helps. Dropping coefficients keeps exactly the columns, penalties and coefficients of the others and reports zero coefficient, curvature and covariance for the dropped ones. However a fit ends, the linear predictors, means, Hessian, covariance, penalty, residuals and effective degrees of freedom it returns all belong to the returned coefficients and smoothing parameters, and at convergence on a quadratic log-likelihood the penalized score is zero.",
     ["inputs", "histories", "configurations"], "every sequence of log-likelihoods (one unknown per evaluation, up to 6), response, start, smoothing parameter and curvature; 1-3 distribution parameters, all sets of dropped coefficients, up to 2 outer and 4 inner iterations, with and without reparameterization and gradient steps",
     "the stable tests fit no location-scale model; a stale state appears only for particular log-likelihood sequences, dropped coefficients or iteration limits",
     [PY + "gamm_solvers.py", "src/mssm/models.py"],
     [("newton_coef_smooth / gd_coef_smooth / correct_coef_step_gammlss / drop_terms_X / check_drop_valid_gammlss / handle_drop_gammlss / restart_coef_gammlss / update_coef_gammlss / correct_lambda_step_gamlss / solve_gammlss_sparse", PY + "gamm_solvers.py"), ("GAMMLSS.fit", "src/mssm/models.py")])
