import json
P=[]
def p(id,title,stmt,over,q,why,files,mech,state=(),obs=(),hook=None):
    P.append(dict(id=id,title=title,statement=stmt,quantifier=dict(over=over,text=q),why_tests_cant=why,
      anchors=dict(files=files,state=[dict(name=a,meaning=b,where=c) for a,b,c in state],
      mechanism=[dict(name=a,where=b) for a,b in mech],observe_at=list(obs),hook_needed=hook)))
T="crates/RustQuant_trading/src/"
p("C01","Limit order book fills by strict price-time priority",
 "After any sequence of order submissions, cancellations and market orders, a market order is filled only from resting orders of the opposite side, best price first and, within one price, in order of arrival, taking no more than each order's remaining quantity. It reports, in the order visited, each price level it traded at with the exact quantity taken there, and reports complete execution exactly when the resting opposite-side quantity was at least the requested one.",
 ["histories"],"every finite history of add/cancel/market operations over any ids, prices, sizes and sides",
 "The tests replay a handful of fixed scripts with few orders; the guarantee is about every interleaving of partial fills, cancels in the middle of a queue, and level deletion.",
 [T+"limit_order_book.rs",T+"limit_order_book/limit.rs",T+"limit_order_book/order.rs"],
 [("price level trees and FIFO queues","Book::execute_market_order, Limit::execute")],
 [("buy_limits/sell_limits","resting levels per side","limit_order_book.rs"),("order_map","live orders by id","limit_order_book.rs")],["Book public API"])
p("C02","Order ids are live until filled or cancelled; quantity is conserved",
 "An order can be submitted exactly when no live order carries its id, and cancelled exactly when it is live; a rejected call changes nothing that any later call can observe. An order stays live until its whole remaining quantity is taken or it is cancelled, a fully filled or cancelled id can be used again (on either side, at any price), and every submitted share is always exactly one of resting, executed or cancelled.",
 ["histories"],"every history of add/cancel/market operations, including re-used ids and failing calls",
 "Tests check a few single calls; id re-use after a partial fill, cancels of head/middle/tail orders and rejected calls in the middle of a history are not sampled.",
 [T+"limit_order_book.rs",T+"limit_order_book/limit.rs"],
 [("order_map membership","Book::add_order / cancel_order / Limit::execute")],
 [("order_map","live ids and remaining shares","limit_order_book.rs")],["Book public API"])
D="crates/RustQuant_time/src/"
p("C03","Country calendars mark exactly the documented holidays",
 "For every date from 1 January 1901 to 31 December 2199 each country calendar's holiday test is true exactly on the public holidays its documentation lists: fixed dates (with their weekend substitution rules), nth-weekday dates, dates relative to Easter Sunday or in the Hebrew calendar of that year, the tabulated dates announced year by year, and the one-off or historical exceptions. Easter Sunday itself agrees with the Gregorian and Julian computus for every one of those years.",
 ["inputs"],"every date 1901-2199 for every country calendar",
 "The tests look at one or two years of a few countries; holiday rules interact with weekdays, leap years and Easter differently each year.",
 [D+"calendar.rs",D+"countries",D+"utilities.rs"],
 [("per-country rules","is_holiday_impl_*"),("Easter tables","utilities.rs")],[],["Calendar::is_holiday"])
p("C04","Business days, rolling and business-day counts form one algebra",
 "A date is a business day exactly when it is neither a weekend day of the calendar's market nor a holiday of its rule nor one of the user-added holidays, whatever order and multiplicity they were added in. Every rolling convention returns a business day of that calendar (the Actual convention returns the date itself), is the identity on business days, and is the nearest business day in its direction, with the Modified conventions reversing direction exactly when the month would change; business-day counts equal the number of business days in the closed date range and calendar-day counts the number of dates in it as documented.",
 ["inputs","histories"],"every market, date, rolling convention, date range and history of added holidays",
 "Tests roll a few hand-picked dates in one market; month-end, year-end, long holiday clusters and user-added holidays interact.",
 [D+"calendar.rs",D+"date_rolling.rs"],[("rolling functions","date_rolling.rs"),("counting loops","calendar.rs")],
 [("extra_holidays","user holidays of the calendar","calendar.rs")],["Calendar public API"])
p("C05","Frequencies, date sequences and schedules cover exactly the requested dates",
 "Every frequency is worth its documented number of periods per year, and inferring a frequency from two dates depends only on their distance in days: it returns the frequency whose band contains the distance (1, 7, 14, 15, 28-31, 45-46, 91-92, 121-122, 182-183, 365-366 days) and refuses every other distance, negative ones included. For start <= end a date sequence lists every day from start to end, both included. A schedule generated from dates keeps one date per requested date, in the requested order, each rolled by the chosen convention in that calendar (user-added holidays included), records both conventions, and carries one day-count factor per date: between consecutive rolled dates, the first one from today.",
 ["inputs","configurations"],"every pair of dates and every combination of frequency, day-count and rolling convention",
 "Tests check one schedule; the guarantee covers all distances, month lengths and conventions.",
 [D+"schedule.rs",D+"calendar.rs",D+"frequency.rs",D+"utilities.rs"],[("schedule construction","calendar.rs"),("band table","frequency.rs")],[],["Schedule, infer_frequency, date_sequence"])
p("C06","Date utilities agree with the proleptic Gregorian calendar",
 "For every date (years 1 to 9998), the helpers on single dates (weekend/weekday, first/last day of the month, last day of February, for 1901 to 2199 unpacking into year, month, day, weekday and day of the year), on months (weekday of the first and of the last day, date of the first and of the last given weekday) and on date ranges with start <= end (years in the range, days of each of them, leap-year count and containment, days between, default year fraction = days/365.25) return exactly what the proleptic Gregorian calendar defines, in every leap-year case including century years. Days between and the year fraction do not depend on the order of the dates.",
 ["inputs"],"every date in the supported range",
 "Tests check single dates; boundaries at month ends, leap days and centuries need the whole range.",
 [D+"utilities.rs"],[("date helpers","utilities.rs")],[],["RustQuant_time utilities"])
p("C07","Day-count fractions equal their conventions' exact definitions",
 "For every pair of dates and each implemented convention, the day count factor is the exact rational number that the documented convention defines: actual-day conventions divide the actual number of days by their denominator (Act/365 Actual and Act/365L by 366 when a calendar year touched by the period is a leap year; Act/Act ISDA and AFB by their year and leap-day rules; NL omits the leap days after the start up to and including the end), and each 30/360 variant applies exactly its end-of-month and February adjustment rules. A period from a date to itself is zero for every convention except One/One (and 30E+/360 on a 31st, whose second date moves to the next month); conventions with a fixed denominator are additive over adjacent periods, also backwards. Year-dependent conventions are defined for start <= end. Act/Act ICMA is not implemented.",
 ["inputs"],"every pair of dates and every implemented convention",
 "Tests take a couple of date pairs per convention; the rules differ only at month ends, Februaries, leap years and year boundaries.",
 [D+"day_counting.rs"],[("per-convention formulas","day_counting.rs")],[],["DayCountConvention::day_count_factor"])
A="crates/RustQuant_autodiff/src/"
p("C08","Reverse-mode gradients equal the mathematical derivatives",
 "For every program over the supported operators and functions (variable-variable, variable-scalar, scalar-variable, assigning, sum and product forms; every unary function), at any point of the domain where every operation is differentiable, each intermediate result carries the value of its expression, and its gradient with respect to every input is the partial derivative given by the chain rule, in every form of requesting it (one variable, slice, array, vector) and in the requested order. (The base-10 and base-2 logarithms and min/max with a scalar left operand deviate in ways the existing tests pin; they are recorded as known findings.)",
 ["programs","inputs"],"every expression tree over the supported operations and every point where it is differentiable",
 "The tests differentiate one or two small formulas per operator at one point; wrong local rules cancel or vanish at special points and composition shapes (shared subexpressions, reuse of one variable on both sides) are unbounded.",
 [A+"overload.rs",A+"gradient.rs",A+"accumulate.rs"],[("local partials pushed on the tape","overload.rs"),("backward sweep","accumulate.rs")],[],["Variable operators, Accumulate, Gradient"])
p("C09","The autodiff tape is append-only, topologically ordered and graph-local",
 "Creating a variable appends exactly one vertex, and every operation appends its vertices at the end of the log of its operands' graph with the result as the newest one and every parent before its child, so no existing vertex and no variable's index or value ever changes, and no other graph does. A gradient has one entry per vertex, with one at the differentiated output and zero after it, is repeatable, and is zero for every variable the output does not depend on. Clearing empties one graph, zeroing resets its partials and keeps its shape, and joining two graphs gives the first log followed by the second with its parents shifted. Combining variables of different graphs is refused.",
 ["histories","programs"],"every history of variable creation, arithmetic, clear/zero and gradient calls over one or more graphs",
 "Tests check sizes after one short expression; histories that interleave several outputs, clears and several graphs are not sampled.",
 [A+"graph.rs",A+"variable.rs",A+"accumulate.rs"],[("Graph::push","graph.rs"),("graph identity assertion","overload.rs")],
 [("vertices","operation log (Wengert list)","graph.rs")],["Graph public API"])
I="crates/RustQuant_instruments/src/"
p("C10","Currency conversion uses the quoted rate, in its direction only",
 "After any history of added rates, an exchange answers a rate query with the most recently added rate for that ordered currency pair and with nothing if that ordered pair was never added, whatever other pairs (including the reverse) were added; it holds one rate per ordered pair quoted. Conversion, through an exchange or by a free-standing rate, multiplies the amount by that rate, returns money in the target currency, and refuses a missing pair or money that is not in the rate's source currency. Adding, subtracting, multiplying and dividing money acts on amounts of one currency and is refused across currencies; money of different currencies is never equal and not ordered, and within one currency compares by amount.",
 ["histories","inputs"],"every history of added rates, queries and conversions over any currencies and amounts",
 "Tests add one rate and convert once; overwriting, reverse pairs, same-code pairs and mixed-currency arithmetic are not covered.",
 [I+"fx/exchange.rs",I+"fx/money.rs",I+"fx/currency.rs"],[("pair-keyed map","exchange.rs"),("currency checks","money.rs, exchange_rate.rs")],
 [("rates","latest rate per ordered pair","exchange.rs")],["Exchange, ExchangeRate, Money"])
p("C11","Currency and country codes match the ISO standards",
 "Every currency constant carries the ISO 4217 alphabetic and numeric code of its name, its minor unit, and as many fractions per unit as ten to the power of the minor unit; no two share a code. Looking up a country by its ISO 3166-1 alpha-2 code returns exactly the country with that code, with its alpha-3 and numeric code, for all 249 countries, and nothing for any other string.",
 ["inputs"],"every currency constant and every string used as a country code",
 "Tests look at one currency; a wrong or swapped row of a table of hundreds is invisible to them.",
 [I+"fx/currency.rs","crates/RustQuant_iso/src/iso_3166.rs","crates/RustQuant_iso/src/iso_4217.rs"],[("tables","currency.rs, iso_3166.rs")],[],["currency constants, ISO_3166::from_alpha_2"])
p("C12","Cash flows, legs and quotes keep their bookkeeping exact",
 "A cash flow's present value is amount times discount factor; adding, subtracting (both refused across dates), scaling, dividing and negating cash flows, in plain and assigning form, act on the amount, keep the date and leave the operands of the plain forms unchanged. A leg holds exactly the flows it was made with and those added, in that order; its size counts them, its present value is the sum of theirs, its start and end are its earliest and latest payment date whatever the order of insertion (none when empty), and it is active exactly on the dates from start to end. A simple quote always reports the last value set (zero included), setting a value returns the change (the value itself when there was none), setting none changes nothing, and it is valid exactly when it has a value, until reset.",
 ["histories","inputs"],"every history of added flows, queries and quote updates",
 "Tests use one ordered leg; unsorted insertion, duplicated dates and update/reset histories are not covered.",
 ["crates/RustQuant_cashflows/src/cashflow.rs","crates/RustQuant_cashflows/src/legs.rs","crates/RustQuant_cashflows/src/quotes.rs"],[("Leg, Cashflow, SimpleQuote","cashflow.rs, legs.rs, quotes.rs")],[],["public API"])
p("C13","Portfolio totals equal the sum over positions at all times",
 "At any point of a history of insertions, removals and price or quantity updates, a portfolio's value, cost and profit equal the sums over its current positions of quantity times current price, quantity times purchase price and their difference, each position's own value and profit likewise, and position weights are each position's value over the total (when it is not zero) and add up to one. An update by name changes exactly that field of the named position and nothing else, and updating an unknown name is refused and changes nothing.",
 ["histories"],"every history of updates over any set of positions",
 "Tests evaluate one static portfolio; updates, removals, zero and negative prices and several instruments are not combined.",
 ["crates/RustQuant_portfolios/src/lib.rs"],[("Position/Portfolio accounting","lib.rs")],[("positions","name to position map","lib.rs")],["Portfolio public API"])
p("C14","Curves return their quotes at nodes and interpolate between brackets",
 "A Curve (linear or exponential method, one or more nodes with distinct dates in any order, built from vectors or from a map) returns exactly the current rate at every node date, after any history of construction, set_rate, set_rates, queries with insertion and parallel shifts; between nodes get_rate and get_rates return the linear (or geometric) interpolant of the two adjacent current nodes, and None outside the first and last dates. Queries without insertion leave the curve unchanged, and queries with insertion add exactly the queried dates inside the range and no others. get_brackets returns the adjacent node dates (for an interior node date: the previous node and itself; at or beyond an end: that end twice); dates, rates, len, first and last dates and rates describe the current nodes; unequal numbers of dates and rates are refused.",
 ["histories","inputs"],"every history of curve updates and queries over any node dates and rates",
 "Tests build one curve and query a few dates; updates followed by queries are not covered.",
 ["crates/RustQuant_data/src/curves.rs"],[("node map and interpolator kept in step","curves.rs")],[("nodes","date to rate map","curves.rs")],["Curve public API"])
M="crates/RustQuant_math/src/"
p("C15","Interpolators reproduce their nodes and defining formula",
 "For any set of nodes with distinct positions given in any order, LinearInterpolator and ExponentialInterpolator return the node value at each node; strictly between two adjacent nodes the linear one returns the chord value and the exponential one (positive values) y_l^(1-t) y_r^t, on every real-valued axis (f64, f32, dates, times, date-times, Decimal for the linear one); queries outside the node range give OutsideOfRange, unequal lengths are refused on construction, and range() returns the extreme nodes. Adding a point gives the same interpolator as building it with that point, and fit() changes no answer. BSplineInterpolator satisfies the Cox-de Boor recursion over its sorted knots with half-open spans, the end of the domain belonging to the last non-empty span (so the basis sums to one on [knots[p], knots[n-p-1]] whenever it has positive length); outside that domain BSplineOutsideOfRange is returned, a wrong number of knots is refused naming the number needed, add_point inserts a knot and appends a control point, and range() is the first and last knot.",
 ["inputs","histories"],"every node set, insertion order and query point",
 "Tests check one node set in sorted order with one query; unsorted data, insertion histories and spline degrees and knots vary independently.",
 [M+"interpolation"],[("sorted nodes and bracketing","linear_interpolator.rs, exponential_interpolator.rs, b_splines.rs")],[],["Interpolator trait"])
p("C16","Sample statistics equal their textbook definitions",
 "For every finite sample (Vec<f64>), whatever its order and size, mean/arithmetic_mean, geometric and harmonic mean (positive values), sample variance (n-1) and population variance (n), the corresponding standard deviations, covariance (n-1), Pearson correlation, adjusted sample skewness n/((n-1)(n-2)) sum z^3, adjusted sample excess kurtosis, min, max, range, median (mean of the two middle values when even), quantile and percentile (linear interpolation between order statistics at p(n-1), p in [0,1]) and interquartile_range (difference of the order statistics with 0-based ranks floor(3n/4) and floor(n/4)) equal these definitions. Too small samples (empty; fewer than 2 for standard deviations, covariance and correlation, 3 for skewness, 4 for kurtosis), unequal lengths, zero standard deviations in a correlation and levels outside [0,1] are refused by panicking.",
 ["inputs"],"every finite sample, including repeated values, unsorted, odd and even sizes",
 "Tests use one or two fixed vectors; size parity, ties and order matter.",
 [M+"statistics"],[("Statistic trait","statistic.rs")],[],["Statistic"])
p("C17","Sequence builders and the FFT match their definitions",
 "T::seq(start,end,step) (start <= end, step > 0, no overflow past the end) is start, start+step, ... up to and including end when it is hit, for every integer and float type; linspace(start,end,n) for n >= 2 (end - start and n - 1 being numbers of the type) has exactly n equally spaced values from start to end inclusive and refuses start >= end or n = 0; rep(x,n) is n copies of x; cumsum has element k equal to the sum of the first k elements. fft_complex and fft_complex_inplace of any complex vector whose length is a power of two equal its discrete Fourier transform sum_m x_m exp(-2 pi i m k / n) (hence are linear, invertible and preserve energy), fft_real and fft_real_inplace return the magnitudes of that transform; the input of the non-inplace forms is unchanged, and every other length is refused, as is_valid_length tells.",
 ["inputs"],"every start, end, length and step; every complex vector of power-of-two length",
 "Tests transform one short vector and build one sequence.",
 [M+"sequence.rs","crates/RustQuant_math/src"],[("sequence builders, radix-2 butterflies","sequence.rs, fft.rs")],[],["public functions"])
p("C18","k-nearest-neighbour prediction is the majority of the k closest points",
 "KNearestClassifier::predict(x, k) (1 <= k <= number of training points, integer labels) returns for every query row the label most frequent among the k training points nearest to it under the chosen metric - Euclidean, Manhattan, or Minkowski(p) meaning (sum |a_i-b_i|^p)^(1/p) - whatever order the training data is given in. When distances tie at the k-th place any choice among the tied points is allowed, and when votes tie any of the most frequent labels, but the answer is always a label some such choice makes most frequent. Different numbers of points and labels are refused.",
 ["inputs"],"every training set, query, k and metric",
 "Tests use one fixed data set.",
 ["crates/RustQuant_ml/src/k_nearest_neighbors.rs"],[("distance sort and vote count","k_nearest_neighbors.rs")],[],["KNearestClassifier"])
p("C19","Regressions satisfy their optimality conditions",
 "For every full-rank data set, LinearRegressionInput::fit by every decomposition (None, QR, SVD) returns the unique solution of the normal equations with an intercept; RidgeRegressionInput::fit solves (X'X + lambda I0) b = X'y where the intercept is not penalised (or, without an intercept, (X'X + lambda I) b = X'y, intercept 0); LassoInput::fit (objective |y-Xb|^2/(2n) + lambda |b|_1, centred when there is an intercept; tolerance and iteration limit generous) returns coefficients satisfying its subgradient conditions, and intercept mean(y) - mean(x).b. Coefficient vectors have the intercept first; predict is the intercept plus features times coefficients. LogisticRegressionInput::fit (IRLS) on samples whose classes overlap returns finite coefficients satisfying the score equations sum_i (y_i - mu_i)(1, x_i) = 0, and refuses responses other than 0 and 1, non-finite data and unequal lengths; predict_proba is the logistic function of intercept plus features times coefficients, predict is 1 above 0.5 and 0 otherwise, score_misclassification the fraction of differing labels and score_cross_entropy the mean of y ln p + (1-y) ln(1-p).",
 ["inputs","configurations"],"every full-rank data set, penalty and decomposition",
 "Tests compare one data set against numbers printed by R.",
 ["crates/RustQuant_ml/src"],[("least squares solvers","linear_regression.rs, ridge.rs, lasso.rs")],[],["fit/predict"])
p("C20","Option payoffs equal their contractual definition on every path",
 "For every price path, every option type (vanilla, binary, Asian, barrier, lookback, power, log and supershare families) pays exactly the amount of its contractual definition for its call/put, strike and averaging, barrier or exercise flags. Payoffs of long options are never negative where the contract says so, knock-in plus knock-out equals the vanilla payoff, and each definition depends only on the path values it names.",
 ["inputs","configurations"],"every path, strike and combination of contract flags",
 "Tests evaluate few flag combinations on one path and mostly check prices with wide tolerances.",
 [I+"options"],[("payoff()","options/*.rs")],[],["Payoff trait"])
S="crates/RustQuant_stochastics/src/"
p("C21","Simulated paths follow the discretisation scheme of their process",
 "Every simulated path starts at the initial value on the uniform grid t_0 + i (t_n - t_0)/n, the requested number of paths each with n+1 values, and each step is the one of the configured scheme driven by a normal increment of variance dt: Euler-Maruyama X + mu dt + sigma dW; Milstein adds sigma sigma_x (dW^2 - dt)/2; Strang splitting; with mu and sigma the drift and diffusion that the process (arithmetic, geometric Brownian motion and bridge, Ornstein-Uhlenbeck, CIR, CEV, Black-Derman-Toy, Ho-Lee, Hull-White, extended Vasicek, fractional variants, jump diffusions with their compound Poisson jumps) documents for its parameters and their time dependence. The normals of a path come from a stream fixed by the seed and the path's index alone, so runs with one seed are identical, sequential and parallel generation agree, a smaller run is a prefix of a larger one, and different paths have different noise. Fractional noise has the covariance of fractional Gaussian noise over the simulated horizon for its Hurst exponent. What makes no sense is refused with a panic: a horizon that does not end after it starts (also for two-factor simulation), Hurst exponents outside [0, 1] on construction of the fractional processes, and, at the time they take effect, negative volatilities (in the diffusion of the arithmetic, geometric Brownian motions and bridge, Ornstein-Uhlenbeck and its fractional form, CIR, CEV, Ho-Lee, Merton), a negative Ho-Lee drift, and CEV elasticities outside [0, 1]; parameters in range are accepted.",
 ["configurations","inputs","schedules"],"every process, parameter set, scheme, seed, path count and thread schedule",
 "Tests check sample moments within wide tolerances on one configuration.",
 [S],[("StochasticProcess::generate","process.rs")],[("per-path generator","StdRng seeded by path","process.rs")],["StochasticProcess::generate, Trajectories"])
p("C22","Monte Carlo price is the discounted mean payoff of the simulated paths",
 "For every instrument, process and configuration with a seed, the Monte Carlo price equals the discount factor over the configured horizon times the arithmetic mean over all generated paths of the contract's payoff on the whole path.",
 ["configurations","inputs"],"every priced option type, process, rate, horizon and seed",
 "Tests only compare one price with a closed form within loose tolerances.",
 [I+"options","crates/RustQuant_stochastics/src/monte_carlo.rs"],[("price_monte_carlo","options macro")],[],["MonteCarloPricer"])
p("C23","Closed-form option prices and greeks are mutually consistent",
 "For the European models Black-Scholes (b = r), Merton (b = r - q), Black-76 (b = 0), Asay (b = 0, r = 0), Garman-Kohlhagen (b = r - r_f), the generalised Black-Scholes with given cost of carry b and Bachelier, and every valid spot, strike, maturity, rate and volatility, the price equals the model's formula, satisfies put-call parity and lies within the no-arbitrage bounds. Each reported greek (delta, gamma, vega, theta, rho, phi, vanna, charm, vomma, zomma, speed, color, ultima, vega bleed, gamma and zomma percent, lambda, zeta, strike delta and gamma) is the partial derivative of that price its name denotes: theta, color and vega bleed are minus the derivative in time to expiry, charm the derivative in time to expiry, rho holds the dividend yield or foreign rate fixed (and for options on futures the cost of carry at zero), phi is the derivative in the yield. Pricers take the time to expiry as days/365.25.",
 ["inputs","configurations"],"every model, option side and parameter vector",
 "Tests check a few numbers per model; a wrong sign or missing factor in one greek of one side vanishes at special parameters (zero carry, unit maturity).",
 [I+"options/option_models.rs"],[("price and greek formulas","option_models.rs")],[],["price(), delta(), gamma(), ..."])
p("C24","Root finders and the integrator deliver what they promise",
 "Given a continuous strictly monotone function with one root inside the search interval, a starting guess anywhere in that interval (its ends included) and an accuracy, bisection, Brent's method and Newton's method return a point within that accuracy of the root (up to rounding; for Newton's method, which stops on small steps, an accuracy small against the distance over which the slope changes), whatever the guess, the step, the direction of the function and whether the interval is enforced; an enforced interval is never left by an evaluation or by the answer; once evaluations have shown both signs the search stays between them; the iteration cap bounds the evaluations; and solving the same problem again gives the same answer. Numerical integration of a function over an interval (ordinary, reversed, empty, with integrable end singularities) returns the difference of its antiderivative at the ends, evaluating inside the interval only.",
 ["inputs","programs"],"every function of the supported families, bracket, guess and accuracy",
 "Tests solve two functions from one starting point.",
 [M+"rootfinding",M+"integrate.rs"],[("bracket expansion and solver loops","rootfinding/*.rs")],[],["RootFinder::solve, integrate"])
p("C25","Discrete distributions: mass, cumulative and moments agree",
 "For every discrete distribution (Bernoulli, binomial, discrete uniform, Poisson) and valid parameters (probabilities 0 and 1 included, large trial counts and rates included), the mass function (pmf and pdf) at every support point is the defining probability; the cumulative function is its running sum at every real argument (0 below the support, 1 above); the quantile function returns a point at which the cumulative function first reaches the level; mean, variance, skewness, excess kurtosis, entropy, mode and median are those of that mass function; the moment-generating and characteristic functions are its transforms, also at 0; and samples have the requested length, lie on the support and follow the distribution.",
 ["inputs"],"every parameter value and evaluation point in the supported domain",
 "Tests check one parameter set each, mostly at a single point.",
 [M+"distributions"],[("Distribution implementations","distributions/*.rs")],[],["Distribution trait"])
p("C26","Continuous distributions: density, cumulative and moments agree",
 "For every continuous distribution (Gaussian, uniform, exponential, gamma, chi-squared) and valid parameters, large and small ones included, the cumulative function is the defining one, the density (pdf and pmf) is its derivative (for the uniform also 0 outside the support), the quantile function inverts it into both tails and gives the ends of the support at 0 and 1, mean, variance, skewness, excess kurtosis, entropy, median and mode are those of that density, the moment-generating and characteristic functions are its transforms, also at 0, and samples have the requested length, lie in the support and follow the distribution.",
 ["inputs"],"every parameter value and evaluation point in the supported domain",
 "Tests check one parameter set each at a few points.",
 [M+"distributions"],[("Distribution implementations","distributions/*.rs")],[],["Distribution trait"])
p("C27","Gradient descent follows its update rule and reports its result truthfully",
 "Gradient descent started anywhere follows the iteration x := x - learning rate * gradient until the gradient norm falls below the tolerance (the square root of machine epsilon if none is given) or the iteration limit is reached; the reported minimizer is the last iterate, the reported minimum is the function value at that minimizer, and the reported iteration count is the number of gradients evaluated.",
 ["inputs","programs"],"every quadratic objective, start, learning rate, tolerance and iteration cap",
 "Tests run two functions from one start.",
 [M+"optimization"],[("optimize loop","gradient_descent.rs")],[],["GradientDescent::optimize"])
p("C28","Activation functions agree across number types",
 "For every x in [-600, 600], sigmoid = logistic = 1/(1+e^-x), identity = x, relu = max(x,0), gelu = x/2 (1+erf(x/sqrt 2)), tanh, softplus = ln(1+e^x) and gaussian = e^(-x^2) hold for f64, elementwise for DVector<f64> (any length) and for the value of an autodiff Variable, up to 1e-11 absolute (gelu 1e-9|x|); the gradient of the Variable form is the derivative of the same formula (away from the kink of relu).",
 ["inputs"],"every activation function, representation and input",
 "Tests evaluate a few points per function and never compare representations.",
 ["crates/RustQuant_ml/src/activations.rs"],[("ActivationFunction implementations","activations.rs")],[],["ActivationFunction"])
p("C29","Implied volatilities and volatility models invert and match their formulas",
 "For every quote strictly between the intrinsic value and the ceiling of a European option under BlackScholesMerton (any cost of carry), the implied volatility reproduces the quote when put back into the pricing formula, for volatilities and maturities from very small to very large and for calls and puts deep in and out of the money; a quote below the intrinsic value gives minus infinity and one at or above the ceiling plus infinity. The Bachelier implied volatility inverts the Bachelier price to one part in a million (exactly at the money), and atm_vol inverts atm_price. The SABR volatility is Hagan's lognormal expansion for every alpha, beta, rho, nu, forward, strike and maturity, and its at-the-money limit at strike = forward.",
 ["inputs"],"every quote, strike, maturity, rate and parameter vector",
 "Tests invert a handful of quotes of ordinary moneyness and maturity.",
 ["crates/RustQuant_instruments/src/options/implied_volatility.rs","crates/RustQuant_instruments/src/options/option_models.rs","crates/RustQuant_math/src/distributions/gaussian.rs"],[("implied volatility transform and rational guesses","implied_volatility.rs"),("Bachelier and SABR","option_models.rs")],[],["implied_volatility, Bachelier, SABR"])
p("C30","Heston prices and greeks are those of the model at every maturity",
 "For every spot, strike, rate, dividend yield, maturity (weeks to decades) and parameter set of the Heston model whose mean reversion exceeds correlation times volatility of variance (and strikes whose Fourier integrals die out before oscillating more than a hundred radians), the call price is s e^(-qT) P1 - k e^(-rT) P2 with the model's in-the-money probabilities, the put satisfies put-call parity, and delta, gamma and rho are the partial derivatives of the price in spot (twice) and rate; the price is continuous in the maturity (no branch switching of the complex logarithm) and the pricer takes the time to expiry in years from today.",
 ["inputs"],"every parameter set, strike, maturity and side in the stated domain",
 "No test prices a Heston option at all.",
 ["crates/RustQuant_instruments/src/options/option_models.rs","crates/RustQuant_instruments/src/options/vanilla.rs"],[("characteristic functions, probabilities and greeks","option_models.rs mod heston")],[],["Heston93::price, delta, gamma, rho"])
p("C31","Finite-difference prices are those of the scheme and tend to the model's",
 "For every contract, every grid of at least 3 price steps and 1 time step, and each of the explicit, implicit and Crank-Nicolson methods, the pricer returns the discounted value at today's asset price of that scheme for the Black-Scholes equation on a grid of log-prices five standard deviations wide on either side (the mean of the two middle nodes when there is no middle one), with the undiscounted boundary values of the option at the edges and, for an American option with any exercise window that covers its life, at least the compounded payoff at every node after every step; maturities are in 365.25-day years from the evaluation date (today if none is given). The result is finite on every price grid, an American option is worth at least its European twin and at most the perpetual one, and on fine grids European prices (and American calls) agree with Black-Scholes.",
 ["inputs"],"every contract, side, style, method and grid (time-stable grids for the explicit method)",
 "Most of the repository's finite-difference tests fail as they stand, and the rest compare one contract on one grid to four digits; no test prices on another grid, with another exercise window, or on a fine price grid.",
 ["crates/RustQuant_instruments/src/options/finite_difference_pricer.rs"],[("grid, coefficients, tridiagonal steps, boundaries, exercise","finite_difference_pricer.rs")],[("v","undiscounted values at the interior nodes","explicit, implicit, crank_nicolson")],["FiniteDifferencePricer::explicit, implicit, crank_nicolson"])
p("C32","Longstaff-Schwartz prices are the discounted earnings of one exercise policy",
 "For every contract, number of exercise dates, number of paths and seed, the price is reproducible and equals the mean over the simulated paths (geometric Brownian motion, filled in backwards by Brownian bridges) of the payoff at the path's stopping date discounted from that date to today, where a path is stopped at a date exactly when it is in the money there and its payoff exceeds the least-squares fit, on the payoffs of the in-the-money paths, of what those paths earn later (polynomials up to degree four; no exercise when no path is in the money). With one date it is the discounted Monte Carlo price of the European option; in every case it lies between the earnings of the worst policy and of perfect foresight.",
 ["inputs"],"every contract, side, numbers of dates and paths, and seed",
 "The tests compare the price of three contracts to a tolerance wider than the effects of most mistakes in discounting, exercise or regression.",
 ["crates/RustQuant_instruments/src/options/longstaff_schwartz.rs"],[("backward induction and regression","longstaff_schwartz.rs generate_price"),("end points and bridges","generate_end_points, backwards_time_induction")],[("payoffs","value of each path's cash flow at the current date","generate_price")],["LongstaffScwhartzPricer::generate_price"])
p("C33","Nelson-Siegel-Svensson rates are one consistent curve",
 "For every parameter set with positive time scales and every future date, the spot rate is the Nelson-Siegel-Svensson formula at the maturity in 365.25-day years from today, the forward rate is the derivative of maturity times spot rate, and the discount factor is exp(-spot * maturity / 100), rates being percentages; a date that is not in the future is refused.",
 ["inputs"],"every parameter set and date",
 "The one test evaluates a curve and asserts nothing.",
 ["crates/RustQuant_stochastics/src/nelson_siegel_svensson.rs"],[("rates and discount factor","nelson_siegel_svensson.rs")],[],["NelsonSiegelSvensson::spot_rate, forward_rate, discount_factor"])
p("C34","Market identifier codes match the ISO 10383 register",
 "Every market identifier constant carries its register entry: operating code, country, operating or segment flag, status, city and name. An operating market is its own operator and a segment names another code of the table; an active segment belongs to an operating market that has not expired; every country code is an ISO 3166 alpha-2 code (or ZZ for none).",
 ["inputs"],"every constant of the table",
 "There is no test of the table at all.",
 ["crates/RustQuant_iso/src/iso_10383.rs"],[("table and its macro","iso_10383.rs")],[],["constants of RustQuant_iso::iso_10383"])
p("C35","The picture of a computation shows exactly its tape",
 "For every tape that variables and operations leave on a graph, and every choice of its variables to name, the dot text is one digraph with one node per vertex, marked as an input with its value exactly when named, and one arrow per operand from the operand's node to the result's, labelled with the operand's slot and its partial derivative to two decimals; nothing else is drawn.",
 ["histories"],"every tape and every subset of named variables",
 "The tests print three pictures and assert nothing about them.",
 ["crates/RustQuant_autodiff/src/graphviz.rs"],[("dot output","graphviz.rs graphviz")],[("vertices","parents and partials of every vertex","graph.rs")],["graphviz(&graph, &vars)"])
p("C36","An order book keeps every order on its side in order of arrival",
 "After any sequence of insertions into an order book and a clone of it, each side holds exactly the orders inserted on that side, in order of arrival and with every term (identity, symbol, type, side, prices, quantities, time in force, timestamp) unchanged, whatever those terms are -- executed in full, in part or not at all, identities and times repeated or out of order; the length counts both sides, the book is empty exactly when both sides are, and a clone and its original do not affect each other. Reversing a side twice gives it back, types and lifespans print as their market abbreviations, and an order prints each of its terms by name.",
 ["histories"],"every history of insertions and clones over orders of every type, side and lifespan",
 "There is no test of this order book.",
 ["crates/RustQuant_trading/src/order_book.rs","crates/RustQuant_trading/src/order.rs"],[("insertion and queries","order_book.rs"),("accessors","order.rs")],[("bids, asks","queues of resting orders","OrderBook")],["OrderBook, Order accessors, Display of OrderType, OrderTimeInForce, OrderSide"])
p("C37","The fitting loss of a curve is the mean log-cosh distance to its current nodes",
 "At every point of a curve's life (creation, setting, shifting and inserting rates), the cost of a Nelson-Siegel-Svensson parameter vector (beta 0 to 3, then the two time scales) is the mean over the current nodes of ln cosh of the difference between the node and what the model says there, in the curve's own kind of rate: the spot rate for a spot curve, the forward rate for a forward curve and the discount factor for a discount curve, the maturity counted from today. A flat curve, and a curve with a node that is not in the future, is refused.",
 ["histories","inputs"],"every history of a curve, kind of curve and parameter vector",
 "The repository's curve tests are commented out; nothing tests the loss.",
 ["crates/RustQuant_data/src/curves.rs","crates/RustQuant_stochastics/src/nelson_siegel_svensson.rs"],[("cost function","curves.rs impl CostFunction for Curve"),("rates of the model","nelson_siegel_svensson.rs")],[("nodes","dates and rates of the curve","Curve::dates, rates")],["CostFunction::cost(&curve, &params)"])
p("C38","Variables compare, classify, round and print as their numbers",
 "For every set of variables of several graphs, copies and rounded ones included: a variable equals a number exactly when its value does; two variables are equal exactly when they share graph and vertex and their values are equal; their order is that of their values (for values that are numbers); is_finite, is_infinite, is_nan, is_normal, is_subnormal, is_zero, is_positive, is_negative and signum are those of the value, zeros signed; rounding goes to the nearest integer, halves away from zero, changes that handle alone and never the tape, the vertex or a copy; and a variable prints its value so that it reads back as the same number.",
 ["histories","inputs"],"every history of creating, copying, negating and rounding, over every class of number",
 "Tests compare two variables of one graph and classify the number one.",
 ["crates/RustQuant_autodiff/src/variable.rs"],[("comparisons, predicates, rounding, printing","variable.rs")],[("value, index, graph","what a handle refers to","Variable fields and accessors")],["==, cmp, predicates, round, Display of Variable"])
p("C39","Printed values show exactly what they hold",
 "The text of a cash flow is Cashflow(amount, date); money prints its amount, the name of its currency and the ISO code, one per line; a currency prints its name and code; an ISO code its letters and digits; a vertex of a computation graph its two partial derivatives and two parents (zero for operands it does not have); a schedule its dates, day count factors and the names of its two conventions, in that order; and the errors of the limit order book name the order id in question. Numbers print in full decimals that read back as the same number. Vertices are equal exactly when all four entries are.",
 ["inputs"],"every value of these kinds",
 "There is no test of any of these texts.",
 ["crates/RustQuant_cashflows/src/cashflow.rs","crates/RustQuant_instruments/src/fx/money.rs","crates/RustQuant_instruments/src/fx/currency.rs","crates/RustQuant_iso/src/iso_4217.rs","crates/RustQuant_autodiff/src/vertex.rs","crates/RustQuant_time/src/schedule.rs","crates/RustQuant_trading/src/limit_order_book.rs"],[("Display implementations","the files above")],[],["to_string of Cashflow, Money, Currency, ISO_4217, Vertex, Schedule, ExistingIdError, NonExistingIdError"])
p("C40","Approximate-equality assertions pass exactly within the tolerance",
 "For every two numbers and tolerance of one signed number type, assert_approx_equal! passes exactly when neither difference exceeds the tolerance (a difference equal to it passes); it fails when a difference is not a number, when the tolerance is negative or not a number, and between two equal infinities; a failure names both values and the tolerance. RUSTQUANT_EPSILON is the square root of the machine epsilon.",
 ["inputs"],"every pair of numbers and tolerance",
 "The test of the macro only contains assertions that pass.",
 ["crates/RustQuant_utils/src/lib.rs"],[("macro and constant","RustQuant_utils")],[],["assert_approx_equal!, RUSTQUANT_EPSILON"])
with open('/verif/properties.jsonl','w') as f:
    for x in P: f.write(json.dumps(x)+"\n")
print(len(P))
