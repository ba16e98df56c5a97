T = "The 14 test programs run a few fixed data files and only their exit status is checked; "
prop("P01", "Differencing and difference polynomials are exact", "Ordinary and seasonal differencing of any series of any length return exactly N-d (N-D*s) values equal to applying (1-B)^d ((1-B^s)^D) literally, without touching the input, and the difference polynomials handed out for any order (including 0) are the binomial expansions. Polynomial multiplication returns the exact coefficient convolution and cumulative sums undo first differences.", ["inputs","configurations"], "every series value in [-1,1], lengths 1..200, d<=6 (polynomials to 8), D<=3, s<=25", T+"no test looks at a differenced value, and orders/seasons other than a handful are never run.", ["src/talg.c","src/ctsa.c"], [("diff/diffs/deld/delds/poly/cumsum","src/talg.c")])
prop("P02", "Convolution equals its definition for both methods and all output types", "For any two sequences and any lengths, the direct and the FFT method return the same linear convolution, the full/same/valid output types are the documented central slices with the documented lengths, and nothing outside the documented output size is written. A convolution object may be reused for further inputs, and causal filtering returns the first N terms.", ["inputs","configurations"], "all values in [-1,1]; all length pairs up to 6 (9 thorough) with both operands arbitrary, selected pairs to 200 with one operand arbitrary", T+"convolution is only exercised indirectly.", ["src/conv.c","src/hsfft.c","src/real.c"], [("convolve/conv_direct/conv_fft","src/conv.c"),("filter","src/filter.c")])
prop("P03", "FFT equals the discrete Fourier transform for every length", "The complex transform of any length N and either direction equals the defining sum for every input, the backward transform undoes the forward one up to the factor N, and the real transforms agree with the complex one and round-trip. A transform object can be executed repeatedly and does not modify its input.", ["inputs","configurations"], "all inputs with entries in [-1,1]; N=1..64 complete plus selected N to 128 against the DFT, selected N to 300 (1024 thorough) for the inverse, even N to 66 (130) for real transforms", T+"only power-of-two paths are reached, indirectly.", ["src/hsfft.c","src/real.c"], [("mixed-radix and Bluestein paths","src/hsfft.c"),("r2c/c2r","src/real.c")])
prop("P04", "Autocovariance and autocorrelation follow the definition", "Sample autocovariances at every lag equal (1/N) sum (x_t-m)(x_{t+k}-m) whichever method (direct or FFT) is chosen and for any series, the lag-0 value is the variance, and the input is not modified. Autocorrelations are those values divided by lag 0, start at exactly 1, lie in [-1,1], and are unchanged by shifting or scaling the series.", ["inputs","configurations"], "series values in [-1,1] (all arbitrary to N=13, 4-6 arbitrary entries to N=200/512), lags to N", T+"acf values are printed but never compared.", ["src/stats.c","src/ctsa.c"], [("autocovar/autocovar_fft/acvf/acvf_opt","src/stats.c, src/ctsa.c")])
prop("P07", "Matrix products, factorisations and linear solves are correct", "Every matrix product and transpose routine agrees with the definition for any shape; LU (square and rectangular), QR and Cholesky factors multiply back to the input matrix with the promised triangular/orthogonal structure, including when pivoting is needed, and Cholesky accepts exactly the positive definite matrices. Linear solves and inverses satisfy A x = b and A inv(A) = I, and every least-squares routine returns a solution of the normal equations (an exact fit when underdetermined).", ["inputs","configurations"], "right-hand sides and selected or all matrix entries arbitrary in [-1,1]; products and transposes across recursion/blocking thresholds to 200, factorisations to order 12 (70 blocked Cholesky), least squares to 30x6", T+"no test calls the linear algebra directly and only well-conditioned internal uses occur.", ["src/matrix.c","src/lls.c"], [("mmult/tmult/rmult/smult","src/matrix.c"),("ludecomp/rludecomp/linsolve/minverse","src/matrix.c"),("qrdecomp/getQR/house","src/matrix.c"),("cholu/bcholu/chold","src/matrix.c"),("lls_normal/lls_qr/lls_svd/lls_svd2","src/lls.c")])
prop("P19", "Moving-average and exponential filters follow their definitions", "Centred moving averages (odd windows, and even windows with half end weights), weighted moving averages with odd windows, and exponential smoothing equal their defining formulas at every position, with the documented edge handling (repeat the end values, or leave edges untouched), without modifying the input. Moving-average deseasonalisation removes a zero-sum seasonal pattern computed from the detrended series, and recovers any seasonal pattern plus linear trend exactly.", ["inputs","configurations"], "series values and weights in [-1,1], smoothing constants in [0,1], N to 120, windows to 25", T+"filters are not called by any test.", ["src/filter.c"], [("mafilter/mafilter2/mafilter_wt/expfilter/deseason_ma","src/filter.c")])
prop("P21", "Forecast accuracy measures equal their definitions", "ME, MSE, RMSE, MAE, MPE, MAPE and MASE computed from any forecasts and actuals equal their textbook definitions (percentage errors for actuals of either sign, MASE scaled by the in-sample one-step naive error), are zero for perfect forecasts and non-negative where they measure size.", ["inputs"], "forecasts/actuals in [-2,2] (actuals away from 0 for percentage errors), up to 8 arbitrary values, N to 200", T+"accuracy measures are only printed.", ["src/errors.c","src/autoutils.c"], [("me/mse/rmse/mae/mpe/mape/mase","src/errors.c")])
prop("P05", "Wavelet transforms follow the filter bank definition and reconstruct exactly", "For every supported wavelet family, signal length (odd or even), decomposition depth, extension mode (symmetric or periodic) and method (direct or FFT), the discrete, stationary and maximal-overlap transforms produce the filter-and-decimate coefficients that define them, with the documented layout and lengths, and their inverses return the original signal. The multiresolution components add up to the signal and each equals the inverse transform of its own coefficients alone; orthogonal filters are orthonormal and the maximal-overlap transform preserves energy; a wavelet object may be reused and the input is never modified.", ["inputs","configurations"], "signal values in [-1,1]: all arbitrary up to N=16, otherwise 3-6 arbitrary positions (the transforms are linear) up to N=200; all 104 filters at one level, nine filters at up to four levels", T+"one transform of one signal is checked for a few filters.", ["src/wavelib.c","src/wtmath.c","src/wavefilt.c","src/wavefunc.c"], [("dwt/idwt/getDWTmra","src/wavelib.c"),("swt/iswt/getSWTmra","src/wavelib.c"),("modwt/imodwt/getMODWTmra","src/wavelib.c"),("dwt_per_stride/dwt_sym_stride/idwt_*","src/wtmath.c")])
prop("P08", "Linear regression results satisfy their defining equations", "Every regression (simple, multiple, polynomial; with or without intercept; QR, normal-equation or SVD solver) returns coefficients whose residuals are orthogonal to every regressor, with the residual variance, sums of squares, R2 and adjusted R2, F statistic with the right degrees of freedom, parameter covariance, standard errors, confidence limits, log likelihood, AIC and BIC equal to their definitions on that fit. Significance tests pass the right statistic and degrees of freedom on, and predictions and their variances equal the formulas for any new point.", ["inputs","configurations"], "three or four arbitrary responses in [-1,1] and an arbitrary prediction point over generated designs (p<=5, N<=60), an arbitrary regressor value for simple regression; fcdf/tcdf replaced by arbitrary probabilities", T+"regression output is printed for one data set.", ["src/regression.c","src/lls.c","src/matrix.c"], [("regress/regress_poly/linreg_clrm/linreg_multi","src/regression.c"),("fitted/zerohyp_val/zerohyp_clrm","src/regression.c")])
prop("P20", "Box-Cox transformation and its inverse", "For positive series and any lambda the Box-Cox transformation equals (x^lambda-1)/lambda (log x at lambda 0), the inverse transformation returns the original values and conversely, and the input is left alone. When no lambda is given the choice maximises the profile log likelihood (evaluated exactly as defined) over [-2,2] and the chosen value is returned and used; negative series are refused, and a series counts as constant only when all its values are equal.", ["inputs","configurations"], "series values in [0.1,5] (log likelihood on separated ranges), lambda arbitrary in [-2,2] or ten fixed values including 0, N<=6; the one-dimensional search is replaced by an arbitrary answer", T+"Box-Cox is never called by a test.", ["src/boxcox.c","src/autoutils.c"], [("boxcox/boxcox_eval/inv_boxcox_eval/boxcox_loglik","src/boxcox.c"),("checkConstant","src/boxcox.c")])
prop("P22", "Periodogram and power spectral density", "The periodogram ordinates are |DFT|^2/N and the spectral density ordinates |DFT of the zero-padded series|^2/(2 pi N) at the frequencies 2 pi k/N, for odd and even lengths; the one-sided form doubles every ordinate except those at frequency zero and at the Nyquist frequency, the two-sided form mirrors them to negative frequencies. The ordinates sum to the energy of the series (Parseval), the input is unchanged, an object can be reused, and the spectrum shift puts the ordinates in increasing order of signed frequency.", ["inputs","configurations"], "all series in [-1,1] to N=14 (24 thorough) with padded lengths to 2N+1, three arbitrary entries at selected N to 64 (128)", T+"spectra are never computed by a test.", ["src/spectrum.c"], [("periodogram/psd/spectrum_shift","src/spectrum.c")])
prop("P27", "Array utilities: interpolation, sorting, resampling, extension and shifts", "Linear interpolation through knots given in any order returns the piecewise-linear interpolant (constant outside), grids are evenly spaced with exact ends, sorting returns a permutation that orders the values, and minima, maxima, means, variances and weighted autocovariance sums equal their definitions. Up/downsampling, periodic and symmetric extension and circular shifts by any amount (including more than the length) place every sample where the definition says and undo each other; wavelet packet cost functions equal their formulas.", ["inputs","configurations"], "values in [-2,2]; sorting to N=5 (6), interpolation to 6 (8) knots, extensions/shifts to N=9 (12) with shifts to 2N+1", T+"utilities are only reached with the fixed data of the tests.", ["src/matrix.c","src/talg.c","src/wtmath.c","src/stats.c","src/wavelib.c"], [("interpolate_linear/approx/linspace/sort1d/circshift/per_ext/symm_ext/ppsum","src/talg.c, src/matrix.c, src/wtmath.c, src/stats.c")])
prop("P29", "Theoretical autocovariances, stationarity tests and parameter transformations of ARMA models", "For any stationary ARMA model the theoretical autocovariances equal those of the process (the MA-infinity expansion), including models with more MA than AR terms and the reverse; the transformation from unconstrained values to AR coefficients always yields the coefficients with the given partial autocorrelations tanh(w), is inverted exactly by its inverse, and leaves the other parameters alone. The stationarity and invertibility checks judge by the roots of the right polynomial with its actual degree.", ["inputs","configurations"], "theta/sigma2 arbitrary, phi arbitrary for p<=2 and at fixed values for p<=4, q<=4; polynomial roots are supplied by a stand-in for the root finder", T+"the theoretical functions are never compared with anything.", ["src/initest.c","src/talg.c","src/stats.c","src/emle.c"], [("arma_autocovar/partrans/inv transformation/archeck","src/talg.c, src/emle.c, src/stats.c")])

A = "coefficients, data and optimiser behaviour in the fits of the tests are those of a few fixed series and only exit status is checked; "
prop("P10", "Exact maximum likelihood of ARIMA and SARIMA(X) models", "For any data the objective maximised by the exact-likelihood methods of arima, sarima and sarimax is the exact Gaussian (concentrated) likelihood of the differenced, mean/regressor-corrected series under the ARMA model, and the reported residuals of an exact fit are the standardised one-step prediction errors at the reported coefficients, for pure AR, pure MA, mixed, seasonal, white-noise and regression models, with or without differencing.", ["inputs","configurations"], "all series with values in +-4, regression coefficients arbitrary, ARMA coefficients at several stationary points (invertible or not), p<=3,q<=2 (4,4 thorough), d<=2, seasonal orders <=2 with periods to 4 (12 thorough), N to 16 (30)", A+"an almost-right likelihood still converges to plausible numbers.", ["src/emle.c","src/ctsa.c"], [("fas154/fas154_seas/fas154x/starma/karma","src/emle.c")])
prop("P11", "Conditional-sum-of-squares fitting objective", "For any data and coefficients the conditional method minimises half the log of the mean squared conditional residuals, where the residuals satisfy the ARMA recursion of the differenced, mean/regressor-corrected series with zero values before the first p + s P observations, and the reported residuals of a conditional fit are exactly those at the reported coefficients, for arima, sarima and sarimax.", ["inputs","configurations"], "as P10, and ARMA coefficients arbitrary in [-0.9,0.9] for selected models", A+"the conditional objective is never evaluated by a test.", ["src/emle.c"], [("fcss/fcss_seas/fcssx/css/css_seas/cssx","src/emle.c")])
prop("P12", "Forecasts are best linear predictions with exact error variances", "Point forecasts of a fitted arima, sarima or sarimax model at any horizon are the minimum mean square error linear predictions of the model implied by the reported coefficients given the whole series (conditioning on the first observations of a differenced model), with mean and future regressors added back, and the reported forecast variances are the corresponding prediction error variances with the variance estimate based on the standardised prediction errors. Forecasting does not modify the data and does not read outside the fitted object.", ["inputs","configurations"], "as P10, horizons 1..4", A+"forecast values are printed and never compared.", ["src/emle.c","src/ctsa.c"], [("forkal","src/emle.c"),("arima_predict/sarima_predict/sarimax_predict","src/ctsa.c")])
prop("P15", "Reported results of a fit are consistent with its optimum", "After a fit of arima, sarima or sarimax the reported coefficients are those returned by the optimiser (MA signs in Box-Jenkins convention, non-invertible MA parts of exact fits replaced by the invertible representation with the same autocorrelations), the innovation variance, log likelihood and AIC are the values of the likelihood at those coefficients, and the covariance matrix is the inverse of the numerical Hessian scaled by the number of observations used, taken at the reported coefficients. The status code reflects the optimiser outcome, the chosen optimisation method and fitting method are the ones used (conditional fit first for the combined method), and data and regressors are left untouched.", ["inputs","configurations"], "as P10; optimiser result, status and Hessian replaced by arbitrary values (statuses 0,1,2,4,6,15)", A+"no test inspects a covariance, AIC or status against anything.", ["src/emle.c","src/ctsa.c"], [("as154/as154_seas/as154x/css*/invertroot","src/emle.c"),("arima_exec/sarima_exec/sarimax_exec/vcov accessors","src/ctsa.c")])
prop("P16", "Automatic order selection returns the best model it evaluated", "Automatic ARIMA fitting returns, of all models it evaluates, one with the smallest chosen information criterion (aic, bic or aicc), refitted without approximation; the exhaustive search evaluates every order combination within the limits with and without a constant where one is allowed, the stepwise search ends only when no neighbouring order (up to its model limit) is left untried, and models whose fit failed are never preferred. Orders stay within the user's and the series-length limits; the differencing orders come from the seasonality and unit-root tests run on the (regression-corrected, seasonally differenced) series with the user's options unless the series is declared stationary or non-seasonal; a mean or drift appears only when allowed; the series and all regressors reach every fit unchanged, and the results reported are those of the returned model.", ["inputs","configurations"], "every assignment of values to 2-5 of the information criteria (the rest fixed, some infinite), seasons none/4/12, orders to 5, 0-2 regressors, all option flags", "The auto-arima tests run one fixed series each and check only the exit status; which model is best is never known to them.", ["src/ctsa.c"], [("auto_arima1/search_arima/newmodel","src/ctsa.c"),("auto_arima_exec/set_results","src/ctsa.c")])
prop("P13", "Models fitted by automatic ARIMA: drift, regressors, criteria, validity and forecasts", "Every candidate model of automatic ARIMA is fitted to the whole series with all regressors, a time trend added as first regressor exactly when a drift is wanted (one difference in all) and a mean exactly for undifferenced models with a constant. The reported AIC, BIC and AICc follow their formulas for the number of estimated parameters and observations used (with the offset and log variance under approximation), the residual variance is corrected for degrees of freedom, and models whose fit failed or whose AR or MA polynomial (as identified by the true expanded polynomials) has a root of modulus below 1.01 are given an infinite criterion. Series that are constant after differencing get the matching trivial model. Forecasts and their error variances of the chosen model equal the best linear predictions with mean, drift continued in time and future regressors added back. Regressors that are linearly dependent after differencing are refused with status 7 and no fit, and independent ones are accepted, whatever the fitting method.", ["inputs","configurations"], "every value of data, estimates (mean, regression coefficients, residuals, variance, likelihood), regressors and root moduli; orders p,q,P,Q<=2, d<=2, D<=1, s in {2,3,4}, 0-2 regressors, all criteria, statuses", "The auto-arima tests run a few fixed series and check only the exit status.", ["src/ctsa.c","src/emle.c"], [("myarima/sarimax_wrapper/auto_arima1","src/ctsa.c"),("auto_arima_predict/sarimax_predict","src/ctsa.c"),("as154x/cssx rank test","src/emle.c")])
prop("P14", "Autoregressive and initial ARMA estimation", "From any autocovariances, Yule-Walker coefficients satisfy the normal equations with the matching innovation variance, the innovations algorithm factors the covariance matrix, and partial autocorrelations are the last coefficients of the successive fits. Burg reflection coefficients minimise the forward plus backward prediction errors at each stage with the matching variance. Hannan-Rissanen estimates solve the regression of the demeaned series on its lags and the lagged residuals of the long autoregression, and the reported variance is the mean squared residual. AR order selection takes the order minimising log variance + 2p/N over all orders up to min(N-1, 10 ln N) (12 for maximum likelihood), the reported coefficients, variance and mean are those of the final fit on the series, ARMA order screening reports the minimisers of AIC, SC and HQ, and AR forecasts are the best linear predictions around the mean with their error variances. Inputs are never modified.", ["inputs","configurations"], "autocovariances of up to 4 symbolic lags (orders to 10), series with 1-8 symbolic values, arbitrary solutions/variances; see DESIGN", "The AR and pacf test programs print results for one data file each; none of the values is checked.", ["src/initest.c","src/ctsa.c"], [("ywalg/ywalg2/burgalg/innalg/ma_inn/hralg/hrstep2","src/initest.c"),("ar_estimate/ar_exec/ar_predict/ar/model_estimate/pacf*","src/ctsa.c")])

prop("P17", "Unit root and seasonality tests and the number of differences", "The Dickey-Fuller (both variants), KPSS and Phillips-Perron (both variants) statistics are the functions of the defining regression (response, regressors, constant or trend, sample) that their references give, with the documented lag truncation, Bartlett long-run variance, table critical values for the sample size and interpolated p-values, for any sample size; automatic lag choice takes the lag with the smallest criterion on a common sample. The OCSB statistic is the t ratio of the seasonally lagged term in its regression with the lag order chosen by the criterion, and seasonal strength is 1-var(remainder)/var(remainder+seasonal) limited to [0,1]. ndiffs and nsdiffs return the smallest number of differences (at most the maximum) after which the chosen test on the so often differenced series no longer asks for another, stopping at constant series; inputs are not modified.", ["inputs","configurations"], "2-5 arbitrary series values / residuals / estimates per case in bounded ranges, N 6..600, lags -1..3, all types/alternatives/criteria; see DESIGN", "Unit root tests are printed for one series in one demo test; nothing is compared, ndiffs/nsdiffs only run inside auto_arima.", ["src/unitroot.c","src/seastest.c","src/autoutils.c","src/talg.c"], [("ur_df/ur_df2/ur_kpss/ur_pp/ur_pp2","src/unitroot.c"),("OCSBtest/fitOCSB/SHtest","src/seastest.c"),("ndiffs/nsdiffs","src/autoutils.c"),("ppsum","src/talg.c")])
prop("P06", "Wavelet packet trees: coefficients, best basis and reconstruction", "For every wavelet, length, depth and extension mode, each node of the full and of the best-basis wavelet packet tree holds the low- or high-pass filtered and decimated coefficients of its parent, and node lengths and node accessors agree with the layout. The best basis passes every node to the chosen entropy with its parameter and selects a set of nodes covering the tree exactly once whose total cost is no larger than that of any other such set; the output, node lists, per-level counts and basis markers describe that set, the inverse transform of it returns the original signal, the signal is not modified, and an object can be reused for another signal.", ["inputs","configurations"], "arbitrary node costs (all bases of up to 3 levels compared) for given signals, arbitrary signals in [-1,1] (all entries up to N=11, else 3-4) for given cost patterns; nine wavelets, both extensions, N from 8 to 64, up to 4 levels", T+"packet transforms are never run by a test, and which basis is best depends on the data.", ["src/wavelib.c","src/wtmath.c"], [("dwpt/idwpt/wtree/getDWPTCoeffs/getWTREECoeffs/setDWPTEntropy","src/wavelib.c")])
prop("P18", "Seasonal-trend decomposition, strength of seasonality and super smoother", "STL with any windows, degrees, jumps, iteration counts and period computes exactly the published algorithm (loess with tricube and robustness weights, extended cycle-subseries smoothing, low-pass filter, trend smoothing, interpolation between jumps; seasonal means for the periodic window), each default is used exactly when its option is not given, and seasonal, trend and remainder add up to the series. Robustness weights are the bisquare of the residual over six times the exact median absolute residual. The multiple-season decomposition applies STL to the series without the other seasonal components, in increasing order of period, for the given number of iterations, leaves out periods not shorter than half the series, and falls back to the super smoother, whose values equal the weighted local regressions with fixed or cross-validated spans. Seasonal strength is max(0, 1 - var(remainder)/var(remainder+seasonal)). Seasonal dummies are the Fourier terms of the period. Inputs are never modified.", ["inputs","configurations"], "series values in [-2,2] (all entries up to N=14, else 4-6) for periods 2,3,4,7,12, N to 60 with given robustness weights; residuals for the weights: all entries to N=4, 1-2 to N=101; mstl with arbitrary component values; smoother values all to N=9, N to 40", T+"the decomposition is reached by no test.", ["src/stl.c","src/seastest.c","src/talg.c"], [("stl_/stlstp_/stless_/stlest_/stlrwt_/psort_","src/stl.c"),("stl/mstl/modstl/SHtest/seasdummy","src/seastest.c"),("supsmu/smooth_","src/talg.c")])
prop("P26", "Results depend only on the arguments", "Executing an FFT, convolution, autocovariance, wavelet, wavelet packet, spectrum, regression, ARIMA, SARIMA, SARIMAX, AR or automatic ARIMA object a second time gives what a fresh object gives: after any other series in between, next to other objects in use, and for repeated executions, inversions and forecasts on the same data. Options set on an automatic ARIMA object stay what the user set. The series, spectrum, coefficients and regressors passed in are never modified by any of these calls or by the transformation, filter, decomposition, Box-Cox, accuracy and autoregression functions, and objects can be created, executed any number of times and freed (also never executed) without memory errors.", ["inputs","history"], "two executions on series with 2 to all entries arbitrary in [-1,1], in the order A, B on a fresh object, B, A, A on a fresh object; FFT lengths 1..34 (70), wavelets haar/db2/sym4/bior2.2, ARIMA/SARIMA/SARIMAX orders 0/1(2), all option sets listed in the harness; the optimiser replaced by a deterministic function of start point and objective", T+"every object is executed exactly once.", ["src/ctsa.c","src/emle.c","src/wavelib.c","src/hsfft.c","src/conv.c","src/spectrum.c","src/regression.c"], [("init/exec/predict/free of all objects","src/ctsa.c, src/wavelib.c, src/hsfft.c, src/conv.c, src/real.c, src/spectrum.c")])
prop("P23", "Numerical gradients and Hessians", "Forward-difference gradients are exact for affine objectives and off by at most half the curvature times the step (a given fraction of max(|x|, typical size)) for quadratic ones; central-difference gradients and both difference Hessians are exact for every quadratic objective, at points of any sign and size (also zero) and for any scales. The difference Jacobian of a linear gradient is its matrix and the Hessian from gradients is its symmetric part. A gradient supplied by the user is used instead of differences, objectives that are not finite are refused with status 15, and the point is left as it was.", ["inputs","configurations"], "all coefficients of the objective arbitrary in [-1,1], up to 3 (4) variables, points with entries in {0,+-1,.5,-.25,3,-5,4,8,+-2^-20,-2^-10}, scales 1/8..2, steps that are powers of two", "Derivatives are only used inside fits whose values no test compares.", ["src/lnsrchmp.c","src/newtonmin.c"], [("grad_fd/grad_cd/grad_calc/grad_calc2","src/lnsrchmp.c"),("hessian_fd/hessian_fd2/fdjac/hessian_fdg/hessian_opt","src/newtonmin.c")])
prop("P25", "Probability laws behind p-values and intervals are consistent", "The t, F, normal, gamma and chi-square functions used for significance tests and confidence limits form proper laws for every argument: the t distribution is symmetric about a median of zero, non-decreasing, inside [0,1] and reaches 0 and 1 for arbitrarily large statistics, its two-sided probability equals the F probability of the squared statistic, the F law obeys the reciprocal relation and both quantile functions invert their distribution functions with the right sign for every number of degrees of freedom, including the large ones handled by an expansion; probabilities outside [0,1] are rejected. The incomplete beta and gamma functions equal their leading factor times their continued fraction or series and satisfy the reflection and complement relations; the error function is odd, complementary to erfc and equal to its series near zero; log gamma agrees with its Taylor or Stirling series on (0,150].", ["inputs","configurations"], "any statistic in [-50,50] (and powers of ten up to 1e307), any probability in [0.001,0.999], 11 small and 5 large degrees of freedom, 9 pairs for F; 81 parameter pairs of the incomplete beta function; 3 (thorough 5) steps of each continued fraction; accuracy 1e-6 to 1e-10 of the special functions on whole intervals", "No test evaluates a distribution function; regression tests print p-values of one data set.", ["src/pdist.c","src/dist.c","src/erfunc.c"], [("tcdf/tinv/fcdf/finv/normalcdf/normalinv/chicdf/gammacdf","src/pdist.c"),("ibeta/betacdf/bfrac/pgamma/gamma_log/betainv","src/dist.c"),("erf/erfc","src/erfunc.c")])
prop("P24", "Minimisers never lose the best point and stop only where allowed", "For objectives with arbitrary values: Nelder-Mead returns the best point it evaluated, respects the iteration limit, reports convergence only after comparing the result with its axis neighbours, and leaves the start alone; the one-dimensional minimiser evaluates only inside the interval and returns, with its value, the best point it evaluated, bracketed by evaluated points or interval ends within the tolerance. Backtracking line search returns a point with sufficient decrease within the step limit or the start itself, and the More-Thuente search reports success only when sufficient decrease and curvature conditions hold, with the value and gradient of the returned point. Newton (line search, hook and dogleg trust region) and BFGS minimisation never end at a higher value than the start, report convergence only at points with small gradient, keep to the iteration limit and restore start and scales; Newton finds the minimiser of any strictly convex quadratic. The method number of fminunc selects the documented algorithm.", ["inputs","configurations"], "2-6 arbitrary function values per run (the others fixed), 1-3 variables, 1-4 iterations, quadratics with an arbitrary minimiser coordinate in [-2,2]; see DESIGN", "Optimisers run on a few smooth likelihoods in the tests and no optimum is compared.", ["src/neldermead.c","src/brent.c","src/newtonmin.c","src/lnsrchmp.c","src/secant.c","src/optimc.c"], [("nel_min","src/neldermead.c"),("brent_local_min/fminbnd","src/brent.c"),("lnsrch/newton_min_func/newton_min_trust","src/newtonmin.c"),("lnsrchmt/cvsrch","src/lnsrchmp.c"),("bfgs_min","src/secant.c"),("fminunc/fminsearch","src/optimc.c")])
prop("P30", "Box-Jenkins (unconditional least squares) estimation", "Fitting arima and sarima models with the Box-Jenkins method works on the differenced series: the residuals at any coefficients are those of the ARMA recursion started from backcast values, start values solve the (extended) Yule-Walker equations and reproduce the autocovariances of the moving average part, and each step of the iteration solves the damped least-squares equations. Whatever the residuals at the points tried, the coefficients, mean, innovation variance (sum of squares over degrees of freedom), residuals and covariance matrix reported all belong to the point with the smallest sum of squares tried, with coefficients in the order AR, MA, seasonal AR, seasonal MA, mean; the mean reported is the level the forecasts return to. Models without coefficients and series with zero mean are fitted like any other, the data are left untouched, and partial autocorrelations by maximum likelihood are the last coefficients of the successive fits.", ["inputs","configurations"], "backcast residuals: all series values in [-2,2], p,q<=3, N to 30, up to 63 backcasts, and all coefficients in [-1,1] for p+q<=3; start values for p<=3,q<=2 (3); the iteration for arbitrary residual vectors at the first two or three points tried (every accept/reject sequence), p,q<=2, d<=2, six (ten) seasonal orders with and without mean", A+"the Box-Jenkins method is not run by any test.", ["src/boxjenkins.c","src/ctsa.c","src/initest.c"], [("avaluem/USPE/USPE_seasonal/nlalsm/nlalsms","src/boxjenkins.c"),("arima_exec/sarima_exec method 2","src/ctsa.c"),("pacf_mle","src/initest.c")])
