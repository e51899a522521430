"""Writes /verif/properties.jsonl (the single place where the texts live)."""
import json, os
M="ibl/ibl_method.py"; H="ibl/head_method.py"; T="ibl/thwaites_method.py"
IC="ibl/initial_condition.py"; SF="ibl/skin_friction.py"
A="ibl/analytic/_analytic_2d_base.py"; BL="ibl/analytic/_blasius.py"; FS="ibl/analytic/_falkner_skan.py"
XR="ibl/reference/_xfoil_reader.py"; XD="ibl/reference/_xfoil_data.py"
S="ibl/reference/_stanford_1968.py"; SD="ibl/reference/_stanford_1968_station.py"
P=[]
def p(id,title,statement,over,text,why,files,mech,observe):
    assert len(title)<=80,(id,len(title))
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),
      why_tests_cant=why,anchors=dict(files=files,mechanism=[dict(name=n,where=w) for n,w in mech],observe_at=observe,hook_needed=None)))

p("C01","Edge velocity and its derivatives agree for every way of specifying them",
 "For every accepted way of giving the edge velocity to a boundary layer method (callables with or without their own derivatives or a `derivative` method, a pair of point/velocity vectors, or a start velocity with a pair of point/slope vectors), `u_e(x)` is the velocity that was given, and `du_e` and `d2u_e` are its first and second derivatives. "
 "Derivatives taken from given callables, `derivative` methods and splines are exact; where the library has to difference numerically, the first derivative is exact for every polynomial velocity of degree up to 4 (the second derivative up to degree 4 when differenced from the velocity, and the derivative of the given slope for slopes of degree up to 4). "
 "With a start velocity and a slope table, the velocity at the first table point equals the start velocity. Tables are interpolated through all their points, without overshoot between neighbouring points.",
 ["inputs","configurations"],"every configuration kind, every user function and every x, every table",
 "Tests use one sine/polynomial profile per configuration kind at a few x with loose tolerances; they cannot show that the stencil weights or the wiring of the three functions hold for every profile and every x.",
 [M],[("set_velocity: dispatch on configuration kind, finite difference closures, PCHIP splines",M)],["IBLMethod.u_e","IBLMethod.du_e","IBLMethod.d2u_e"])
p("C02","Invalid edge velocity settings are refused and leave the old one in force",
 "Every unusable edge velocity specification (derivatives without a velocity, a second derivative without the first, a non-callable derivative for a callable velocity, a start velocity without a pair of slope vectors, something that is neither callable, scalar nor a pair, or a pair whose vectors are not one-dimensional, of equal length and at least two long) raises ValueError. "
 "After such a refusal `u_e`, `du_e` and `d2u_e` of an already configured method still answer exactly as before.",
 ["inputs","histories"],"every specification outside the documented kinds, on a new or an already configured object",
 "Tests try a handful of bad values and never look at the object after the refusal.",
 [M],[("validation in constructor and set_velocity before storing",M)],["HeadMethod(...)","ThwaitesMethod*(...)","IBLMethod.set_velocity"])
p("C03","The integration result reports what really happened",
 "The object returned by `solve` says `Completed` at the requested end exactly when the integrator got there, the reason and text of exactly the termination event that stopped it together with the location of that event when one did, and `Unknown Event` with `success` False, the start location and the start state when the integrator failed. "
 "`success` is True exactly when the integrator succeeded, and for a success the reported end state is the solution at the reported end location.",
 ["inputs","fault_sequences"],"every integrator outcome (reached end, stopped by the i-th of any number of events, failure with any message), any method and any user events",
 "Tests reach a completed run and a few event stops; failures and ordering among several events are never produced.",
 [M],[("solve: status mapping, event lookup by index",M)],["IntegrationResult.x_end","IntegrationResult.f_end","IntegrationResult.status","IntegrationResult.message","IntegrationResult.success"])
p("C04","Termination events given to one solve never influence another",
 "An integration watches exactly the method's own separation criterion followed by the events passed to that call, in that order; events passed to an earlier call are never active in a later one. "
 "Changing the separation criterion or the data fits replaces the previous criterion, and neither the list of events the caller passes nor the events in it are changed.",
 ["histories"],"every sequence of solve calls with no event, one event or a list of events, and of criterion changes in between",
 "A test object is solved once with events; only a history of calls on one object exposes leakage.",
 [M,H,T],[("solve builds the event list per call; set_shape_d_critical / set_data_fits replace own event",M)],["IBLMethod.solve"])
p("C05","No answers without a valid solution",
 "Until a solve has succeeded, and again after a later solve fails, every query that depends on the solution (transpiration velocity, displacement and momentum thickness, shape factors, wall shear) raises ValueError instead of returning numbers. "
 "Asking for the edge velocity or its derivatives before they were set also raises ValueError, and so does solving.",
 ["histories","fault_sequences"],"every query of every method class, in the states never solved, solved, solved then failed",
 "Tests query one or two properties before solving; a failed re-solve after a good one is never produced.",
 [M,H,T],[("_solution reset in solve and checked in queries",M)],["v_e","delta_d","delta_m","shape_d","shape_k","tau_w","u_e","du_e","d2u_e","solve"])
p("C06","Integration starts from the settings in force at the time of solve",
 "`solve(x0, x_end)` integrates over exactly that interval from the state given by the current initial condition evaluated with the current kinematic viscosity and with the edge velocity gradient at `x0`: Head's method starts at the momentum thickness and displacement shape factor last set, Thwaites' methods at momentum thickness squared over viscosity, and the stagnation initial condition gives delta_m = sqrt(0.29235*1.23259*nu/((2.2162+2)*du_e)). "
 "Changing viscosity, velocity, or initial values between solves therefore takes effect in the next solve, and changing one initial value keeps the other.",
 ["inputs","histories"],"every viscosity, velocity, initial condition object and start point, and every order of changing them before a solve",
 "Tests configure once and solve once; sensitivity to the order of settings and to later changes is not explored.",
 [M,H,T,IC],[("solve copies nu and du_e(x0) into the initial condition; _ode_setup builds the start state",M)],["solve","initial_delta_m","initial_shape_d","delta_m(x0)","shape_d(x0)"])
p("C07","Head's method integrates the momentum and entrainment equations",
 "At every state with shape factor at least 1.11 and edge velocity at least 0.001, the slopes that Head's method integrates satisfy the von Karman momentum integral equation d(delta_m)/dx = c_f/2 - delta_m (2+H) u_e'/u_e with the Ludwieg-Tillman friction law, and Head's entrainment equation d(u_e delta_m H1)/dx = 0.0306 u_e (H1-3)^-0.6169. "
 "The wall shear stress it reports is 0.5 rho u_e^2 times the same friction coefficient at the solution's state.",
 ["inputs"],"every momentum thickness, shape factor, velocity, velocity gradient, viscosity and density in the method's domain",
 "Tests compare one case with tabulated results at 4-5 digits; a slope error away from that trajectory is invisible.",
 [H,SF],[("_ode_impl and the entrainment closure",H)],["slopes passed to the integrator","HeadMethod.tau_w"])
p("C08","Head's shape factor closure is a consistent, invertible relation",
 "Over shape factors above 1.1, Head's entrainment shape factor is positive, strictly decreasing on each branch, continuous at 1.6 to within 1e-4, the slope used for it in the equations is its exact derivative, and the inverse relation returns the shape factor it came from (to within 1e-4 at the branch point). "
 "Values at or below the validity limits are treated as the limit and give finite results.",
 ["inputs"],"every shape factor on both branches and every entrainment shape factor",
 "Tests sample 101 points on the forward relation and two on the inverse; the derivative is not compared at all.",
 [H],[("_shape_entrainment, _shape_entrainment_p, _shape_d, _entrainment_velocity",H)],["HeadMethod closure functions","slopes passed to the integrator"])
p("C09","Transpiration velocity is the growth rate of the mass defect",
 "For Head's method and for both Thwaites methods with every data fit whose derivative is exact, and for the similarity solutions, v_e(x) equals the streamwise derivative of u_e(x)*delta_d(x) at every point of a solution inside the validity range of the closures. "
 "For Thwaites' methods this is up to the documented 1e-3 velocity offset in the integrated equation.",
 ["inputs"],"every velocity profile (through its first two derivatives), every solution value, every data fit, every x",
 "Tests compare v_e with finite differences on a few profiles at loose tolerance or not at all; terms that vanish for those profiles (e.g. the second derivative) are unchecked.",
 [H,T,A],[("v_e product-rule expansion",H),("v_e chain rule through lambda",T),("v_e closed form",A)],["v_e","delta_d","u_e"])
p("C10","Thwaites' methods integrate Thwaites' equation and report consistent shear",
 "The integrated slope of delta_m^2/nu is F(lambda)/(u_e+1e-3) with lambda = (delta_m^2/nu) u_e', where F is 0.45-6 lambda for the linear method and 2(S-lambda(H+2)) of the selected data fit for the nonlinear one. "
 "Reported quantities obey delta_m = sqrt(nu z), delta_d = delta_m H(lambda), tau_w = rho nu u_e S(lambda)/delta_m, so that the nonlinear method satisfies the momentum integral equation with the reported thicknesses and wall shear.",
 ["inputs","configurations"],"every state, velocity, viscosity, density and data fit",
 "Tests compare a few profiles with closed-form results for the linear method; the nonlinear relation between slope, shear and shape is only checked against tabulated numbers.",
 [T],[("_ode_impl, _calc_f, _calc_lambda, f",T)],["slopes passed to the integrator","delta_m","delta_d","tau_w"])
p("C11","Data fits are clamped to their range and their slopes are true derivatives",
 "For each named data fit the shear and shape functions follow the published formula or interpolate the published table inside its validity range, the reported slope of the shape function is its exact derivative there, and outside the range both functions keep the value of the nearest range end, element by element. "
 "User supplied fits are used as given, with the slope given or differenced (exact for polynomial shapes up to degree 4); unusable fits raise ValueError and leave the previous fit in force.",
 ["inputs","configurations"],"every lambda (inside and outside the range, scalars and arrays mixing both), every fit",
 "Tests evaluate fits at table points and a few derivatives numerically; arrays mixing values below and above the range were never tried (a defect there was found and repaired).",
 [T],[("_ThwaitesFunctions and subclasses, _check_range, set_data_fits",T)],["ThwaitesMethod.shape_d","ThwaitesMethod.tau_w","ThwaitesMethod.v_e","set_data_fits"])
p("C12","Thicknesses and shape factors are mutually consistent everywhere",
 "For every boundary layer method, similarity solution and initial condition, and every reference station that derives its thicknesses from its summary, displacement thickness equals displacement shape factor times momentum thickness, and kinetic energy thickness equals kinetic energy shape factor times momentum thickness, at every location where they are reported; the kinetic energy thickness of a dump file point is its kinetic energy shape factor times its momentum thickness, and a reference station that records its own thicknesses agrees within the documented consistency tolerances. "
 "Methods that do not model kinetic energy report zero for that thickness, its shape factor and the dissipation with the shape of the query.",
 ["inputs","configurations"],"every class that reports thicknesses, every x and every parameter set",
 "Tests compare each quantity with separate reference numbers and never with each other over the input space.",
 [H,T,A,IC,SD,XR],[("delta_d/delta_m/shape_d definitions",H)],["delta_d","delta_m","delta_k","shape_d","shape_k"])
p("C13","Similarity solutions satisfy the boundary layer equations",
 "For every admissible wedge parameter with finite m (beta below 2), reference velocity and viscosity, and every x>0, y>=0, the Blasius and Falkner-Skan velocity components satisfy continuity du/dx+dv/dy=0 and the x-momentum equation u u_x + v u_y = u_e u_e' + nu u_yy, with u = v = 0 at the wall. "
 "Edge velocity, thicknesses, wall shear (rho nu du/dy at the wall) and dissipation satisfy the momentum integral and kinetic energy integral equations, and v_e is the derivative of u_e delta_d.",
 ["inputs"],"all beta in [-0.19884,2), all u_ref, nu_ref, rho > 0, all x>0 and y>=0",
 "Tests compare against tabulated profiles at one or a few parameter sets; scaling errors in x, nu or beta that vanish at those values pass.",
 [A,BL,FS],[("similarity transformation _g, eta, u, v, delta_*, tau_w, dissipation",A)],["u","v","eta","u_e","v_e","delta_d","delta_m","delta_k","tau_w","dissipation"])
p("C14","Similarity thicknesses are the integrals of the computed profile",
 "The profile integrated is that of f''' + f f'' + beta(1-f'^2) = 0 from f(0)=f'(0)=0 and f''(0)=fw_pp over [0, eta_inf], and the dimensionless displacement, momentum and kinetic energy thicknesses are the integrals of (1-f'), f'(1-f') and f'(1-f'^2) over it and the shear thickness is where f' = 0.99. "
 "Explicitly given eta_inf and fw_pp are used as given, values that were not given are searched for until f'(eta_inf)=1 and f''(eta_inf)=0, and a search or integration that does not converge raises ValueError instead of keeping the last iterate.",
 ["inputs","fault_sequences"],"every beta, every combination of given and searched parameters, every integrator outcome",
 "Tests compare a few beta with tables; unconverged searches (silently accepted before the repair) are never produced.",
 [A,BL,FS],[("set_solution_parameters, _calculate_solution",A)],["eta_inf","fw_pp","eta_d","eta_m","eta_k","eta_s","f","f_p","f_pp","reset_beta"])
p("C15","Wedge parameters m and beta are inverse and range checked",
 "Setting beta reports m = beta/(2-beta) (infinite for beta = 2), setting m reports beta = 2m/(1+m) (2 for infinite m), so either can be recovered from the other. "
 "A beta outside [-0.19884, 2] or an m without such a beta raises ValueError and leaves beta, m and the solution unchanged, and the edge velocity is u_ref x^m.",
 ["inputs"],"every beta and m, including the limits and values outside the range",
 "Tests use five beta values and two bad ones; m = -1 crashed with ZeroDivisionError before the repair.",
 [FS,A],[("beta, m, reset_beta, reset_m",FS)],["FalknerSkan.beta","FalknerSkan.m","FalknerSkan.u_e"])
p("C16","Parameters are validated, and what was set is what is read back",
 "Every settable physical parameter of methods, initial conditions, similarity solutions and reference records returns the value last set, and no other parameter changes by setting it. "
 "A value outside the documented range (not positive, or negative where zero is allowed) raises ValueError and leaves the previous value in force.",
 ["inputs","histories"],"every settable parameter of every class and every real value",
 "Tests set one good and one bad value per parameter and do not look at the other parameters or at the value after a refusal.",
 [M,H,T,IC,A,XR,XD,SD],[("property setters",XD)],["all documented settable properties"])
p("C17","Skin friction laws follow their published formulas over their domain",
 "Ludwieg-Tillman gives 0.246*10^(-0.678H)*Re^-0.268, Felsch 0.058*(0.93-1.95 log10 H)^1.705*Re^-0.268 and White 0.3*exp(-1.33H)*(log10 Re)^(-1.74-0.31H), for all Re above 1 and all H in their domain. "
 "All are positive and strictly decrease with Re and with H (White's with H for Re of at least 1.04), except that Felsch treats H below 1 as 1 and is (within 1e-6) zero from H = 2.9986 on, never negative or undefined.",
 ["inputs"],"all momentum thickness Reynolds numbers > 1 and all shape factors, scalars and arrays",
 "Tests evaluate each law at a few grid points; monotonicity, sign and the clipped ends are universally quantified.",
 [SF],[("ludwieg_tillman, felsch, white",SF)],["ludwieg_tillman","felsch","white"])
p("C18","XFoil surfaces partition the dump and are measured from stagnation",
 "Reading a dump whose airfoil rows start on the upper surface and change to negative velocity puts every airfoil row on exactly one surface: upper rows in reverse order and lower rows in file order, after one common stagnation point, none lost, duplicated or altered except that lower-surface velocity, mass defect and kinetic energy defect change sign and arc-length is the distance from the stagnation point. "
 "Arc-lengths on each surface start at zero and increase whenever the file's do, and the wake is a copy of the wake rows with arc-length from its first point.",
 ["inputs"],"every dump with any number of rows, any position of the sign change, with or without a row exactly at stagnation",
 "Two sample dump files are read; other sizes, asymmetric ones and dumps with a stagnation row (which crashed before the repair) are not.",
 [XR,XD],[("filename setter",XR)],["XFoilReader upper/lower/wake accessors"])
p("C19","The stagnation point interpolates its neighbours",
 "When no row lies exactly at stagnation, the first point of both surfaces has zero velocity and all its coordinates, thicknesses, shape factors, friction and defects are the linear interpolation, at the zero of velocity, between the two rows around the sign change with the lower-surface row taken with its reported signs; it therefore lies between them. "
 "Both surfaces report the same values there.",
 ["inputs"],"every pair of rows around the sign change",
 "The two sample files are symmetric at the nose, so wrong weights cannot be seen.",
 [XR],[("_interpolate_aifoil_data",XR)],["XFoilReader.upper(0)","XFoilReader.lower(0)"])
p("C20","Stanford Olympics data is SI whatever the source units",
 "For cases recorded in SI-based units and in English units, every reported length, velocity, viscosity and smoothed-velocity sample equals the recorded number converted to metres, metres per second and square metres per second, dimensionless numbers and velocity gradients (recorded per second) are unchanged, and derived quantities are delta_d = H theta, delta_k = H* theta, u* = u_e sqrt(c_f/2) unless recorded. "
 "Records and samples keep their order and number, and reading another case or clearing it leaves nothing of the previous one.",
 ["inputs","configurations"],"every numeric record, both unit systems, every block layout",
 "Tests read one or two stations of one SI case.",
 [S,SD],[("case setter, reset methods, unit constants",SD)],["StanfordOlympics1968 accessors","StanfordOlympics1968StationData","StanfordOlympics1968SmoothVel"])
p("C21","Inconsistent Stanford records are refused",
 "A station record whose columns are missing or extra, or whose repeated or derived quantities (location, velocity, thicknesses, shape factors, Reynolds numbers, wall shear velocity, wall units, defects) disagree with the summary record by more than the documented tolerance raises ValueError, and a record agreeing within the tolerance is accepted and reported as recorded. "
 "A case file with the wrong identity, viscosity line or no data raises ValueError.",
 ["inputs"],"every record and every disagreement in any single quantity",
 "No test feeds a disagreeing record.",
 [S,SD],[("checks in _reset_station_summary and _reset_station_data",SD)],["StanfordOlympics1968StationData","StanfordOlympics1968.case"])
p("C22","Data owned by the caller is never modified",
 "No query, solve or setting changes arrays, lists or tables the caller passes in or that the caller's own functions return: locations passed to queries, velocity tables, user fit and velocity function results, event lists and data records stay exactly as they were, and repeated queries give identical answers. "
 "Queries do not change the object's observable state.",
 ["inputs","histories"],"every public query and setting with every array, including functions that return their argument or a cached array",
 "Tests use fresh arrays and functions that allocate; aliasing (which corrupted caller data before the repair) never occurs.",
 [M,H,T,A,SF],[("copies before clipping",H)],["all public queries"])
p("C23","Arrays and scalars give the same answers",
 "Every query for a location-dependent quantity returns, for an array of locations, exactly the values it returns for each location by itself, with the shape of the query, also when the elements fall on different sides of a branch or clipping limit. "
 "Scalars, zero-dimensional and one-dimensional inputs are accepted everywhere, two-dimensional ones by the skin friction laws, the data fits and the integral quantities of the similarity solutions (edge velocities, thicknesses, shape factors, wall shear, dissipation and eta, but not the profile f, f_p, f_pp, u and v).",
 ["inputs"],"every public location-dependent query and closure function, every mix of values",
 "Tests query with one-dimensional arrays on one side of each limit.",
 [M,H,T,A,SF],[("numpy masks, piecewise, clip",T)],["all public location-dependent queries"])
p("C24","Array accessors equal the per-point records in order",
 "For every airfoil surface, wake and station list, the array returned for a quantity has one entry per point in point order and each entry equals that quantity of the corresponding per-point record, with edge velocities scaled by the reference velocity and kinetic energy thickness equal to kinetic shape factor times momentum thickness. "
 "Counts equal the array lengths.",
 ["inputs"],"every list of records of any length and every quantity",
 "Tests check the arrays of two sample files with reference velocity 1, so missing scaling or swapped columns that coincide there pass.",
 [XR,S],[("accessor loops",XR)],["XFoilReader *_upper/_lower/_wake","StanfordOlympics1968 arrays"])
p("C25","Separation stops the integration exactly at the method's criterion",
 "Thwaites' methods stop with reason `Separated` where the shear function of the selected fit at the current lambda crosses zero, and Head's method where the displacement shape factor crosses the configured critical value (2.4 unless changed), whatever other events are given. "
 "The criterion in force is always the one last configured.",
 ["inputs","histories"],"every state, fit and critical value; every order of changing them",
 "Tests stop at separation for one profile per method.",
 [H,T,M],[("_HeadSeparationEvent, _ThwaitesSeparationEvent",H)],["events watched by the integrator","IntegrationResult.status"])
p("C26","Dump file layout is recognised: header, airfoil rows, wake rows",
 "A leading comment line is skipped whether or not it is present, all full-width rows up to the first short row are airfoil rows and all rows from it on are wake rows, and a file without short rows has an empty wake. "
 "A row with missing, extra or non-numeric columns raises ValueError, clearing or replacing the file name leaves no data from the previous file, and the file name read is reported.",
 ["inputs","histories"],"every sequence of rows, with and without header and wake, and every sequence of files read by one reader",
 "Two files with header are read; headerless files and re-reading are not tested.",
 [XR,XD],[("_get_dump_data, filename setter, reset",XR)],["XFoilReader.filename","XFoilReader counts"])
with open(os.path.join(os.path.dirname(__file__),'..','properties.jsonl'),'w') as f:
    for q in P: f.write(json.dumps(q)+"\n")
print(len(P))
