import json
P=[]
def p(id,title,statement,over,text,why,files,mech,state=None,obs=None):
    a={"files":["src/pyRFtk/"+f for f in files],"mechanism":[{"name":n,"where":"src/pyRFtk/"+w} for n,w in mech]}
    if state: a["state"]=[{"name":state,"meaning":"object state the property is about","where":"src/pyRFtk/"+files[0]}]
    if obs: a["observe_at"]=obs
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":text},"why_tests_cant":why,"anchors":a})
p("C01","S, Z, Y and VI descriptions of a network are converted exactly and invertibly",
 "For every network with reference impedance Zbase, the S-matrix obtained from its impedance matrix Z, admittance matrix Y or voltage/current transfer matrix satisfies the wave definition b = S a (a = (V+Zbase I)/2, b = (V-Zbase I)/2) for every V, I allowed by that description, and Z and Y recovered from S are the original ones. A scalar gives a scalar, a 1D list one value per 1-port frequency, a square matrix a matrix and a stack of matrices a stack, element by element; any other shape is rejected with ValueError.",
 ["inputs"],"all sizes N, numbers of frequencies, complex matrices for which the inverses exist, non-zero Zbase, and all four shapes of input",
 "A test samples a few matrices; the identity must hold for every matrix, size and reference impedance, and no stable test calls S_from_Y, Y_from_S or Z_from_S at all.",
 ["S_from_Z.py","S_from_Y.py","Z_from_S.py","Y_from_S.py","S_from_VI.py","_check_3D_shape_.py"],
 [("S_from_Z","S_from_Z.py"),("S_from_Y","S_from_Y.py"),("Z_from_S","Z_from_S.py"),("Y_from_S","Y_from_S.py"),("S_from_VI","S_from_VI.py"),("shape normalisation","_check_3D_shape_.py")])
p("C02","Re-referencing an S-matrix never changes the network it describes",
 "Converting S-matrices of wave type V, P or G and port impedances Z1 to type and impedances Z2 yields the matrices for which the same port voltages and currents satisfy b2 = S2 a2, each frequency and port using its own impedance, with the wave definitions documented for the three types. Converting to the same type and impedances is the identity, conversions compose and are undone by the reverse conversion, and the result has the shape of the input whether impedances are given as scalar, per port or per frequency and port.",
 ["inputs"],"all nF, N, complex S1, real positive or (type G and V) complex impedances, all 9 type pairs and all forms of Z1 and Z2",
 "The formula must hold for every matrix, every impedance form and all nine type pairs; the tests only reach V to V with equal scalar impedances.",
 ["ConvertGeneral.py","_check_3D_shape_.py"],[("ConvertGeneral","ConvertGeneral.py")])
p("C03","A circuit's S-matrix obeys Kirchhoff's laws and its blocks' equations",
 "The S-matrix of any circuit built from blocks, junctions and terminations is the one of the network in which every block obeys its own S-matrix, the ports joined at a junction have one common voltage and currents summing to zero, and a port terminated with Z, Y or reflection coefficient RC carries V = -Z I, I = -Y V or the corresponding wave relation (I into the block). Adding a port to a junction by a new name makes that junction point externally accessible, and nesting circuits in circuits gives the same S-matrix as building them flat.",
 ["programs","inputs"],"all sequences of addblock/connect/terminate on blocks of any port count (objects, arrays, nested circuits), all complex block S-matrices, terminations and reference impedances for which the network equations have a unique solution",
 "Topologies and values are unbounded; the tests check a handful of hand-made circuits numerically.",
 ["rfCircuit.py"],[("addblock","rfCircuit.py:addblock"),("connect","rfCircuit.py:connect"),("terminate","rfCircuit.py:terminate"),("extS","rfCircuit.py:extS"),("getS","rfCircuit.py:getS")],
 "M, waves, eqns, ports, blocks, C, T, E of the circuit")
p("C04","The free ports of a circuit are exactly the ones not yet used, in declared order",
 "At any time while a circuit is being built its external ports are precisely the block ports (named block.port, remapped as requested) and new junction names that no junction or termination has consumed, each once, in order of creation or, once solved, in the order announced by the user; rows and columns of its S-matrix follow that order and its length is their number. Requests that are not meaningful (a second new name in one junction, a new name with a dot, an already used or unknown port, a mapping for ports an object does not have, a replacement with another number of ports, announced port names that do not match) raise an exception.",
 ["programs","histories"],"all sequences of addblock, connect, terminate, deembed and evaluation, with all forms of port mapping",
 "The invariant is about every history of building operations; tests follow a few scripts.",
 ["rfCircuit.py"],[("addblock port mapping","rfCircuit.py:addblock"),("connect","rfCircuit.py:connect"),("terminate","rfCircuit.py:terminate"),("port ordering","rfCircuit.py:extS")],
 "ports, waves, Portnames, T, E of the circuit")
p("C05","Results depend only on the present circuit and request, not on history",
 "After any sequence of evaluations (other frequencies, flags, reference impedances, solutions, maximum voltages) interleaved with changes made through an object's own methods (set by path, replacing a block, terminating or re-terminating a port, new evaluation parameters, changing or extending a frequency table, changing a line's length) the next result equals that of a freshly built object in the same final state. Repeating a request gives the same result, also when the caller has overwritten the arrays and dictionaries handed out before.",
 ["histories"],"all interleavings of evaluations and changes on circuits, transmission lines, lumped elements and frequency tables; objects are changed through the circuit that owns them and are not shared between circuits",
 "A stale cache only shows after a specific order of calls; tests never re-evaluate at the same frequency after a change.",
 ["rfCircuit.py","rfTRL.py","rfRLC.py","rfObject.py","rfBase.py"],[("circuit cache f/S/flags/invM","rfCircuit.py:getS"),("line cache solved","rfTRL.py:solveVI"),("interpolators","rfObject.py:_interp_")],
 "f, S, flags, invM, sol of circuits; solved of lines; interpOK, interpM, interpA of tables")
p("C06","Lumped elements have the S-matrix of the documented circuit",
 "A lumped RLC element is the series branch Rs+jwLs+1/(jwCs) from its first to its second port followed by the shunt branch 1/Rp+1/(jwLp)+jwCp at the second port, and an arc object is the 1-port impedance jwLarc, at every frequency, for any subset of the elements given (absent ones being neutral) and any reference impedance, including the limits at zero frequency. Parameters supplied with the request are used as if the element had been built with them.",
 ["inputs"],"all frequencies >= 0, all non-negative element values (reactances that exist at f > 0, resistances > 0 where they divide), all reference impedances, all subsets of given elements",
 "Any value of seven continuous parameters and each of the zero-frequency limits matters; the test evaluates one element at one frequency.",
 ["rfRLC.py","rfArcObj.py"],[("rfRLC.getS","rfRLC.py:getS"),("rfArcObj.get1S","rfArcObj.py:get1S")])
p("C07","A uniform transmission line is an exact solution of the telegrapher's equations",
 "For constant line parameters the S-matrix and the voltage and current along the line are those of dV/dx = (r+jwL) I, dI/dx = (g+jwC) V between the two ports, for any length, frequency, losses and reference impedance: a line of length zero is a through connection, cascaded lines of one type behave as one line of the summed length, the line is symmetric and reciprocal, and without losses it is lossless. Standing waves reported for an excitation match the port waves at both ends.",
 ["inputs"],"all lengths >= 0, frequencies > 0, positive line parameters with or without losses, reference impedances and excitations, all node spacings dx",
 "The relations are for all lengths, frequencies and losses; tests compare a few numbers.",
 ["rfTRL.py","S_from_VI.py"],[("solveVI","rfTRL.py:solveVI"),("getS","rfTRL.py:getS"),("VISWs","rfTRL.py:VISWs")],"solved cache of the line")
p("C08","A tapered line integrates exactly the equations its parameters describe",
 "When a line parameter varies along the line, the equations handed to the ODE solver are dV/dx = (r+jwL)(x) I, dI/dx = (g+jwC)(x) V with the two unit initial conditions, and S-matrix and standing waves are assembled from its solutions for the full length of the line. A list of values means equally spaced nodes over the whole length joined linearly, a pair of lists gives nodes and values (constant beyond the ends), a function is used as given whatever the order of its w and x arguments, and if all values are equal the result is that of the uniform line.",
 ["inputs"],"all lengths, frequencies, parameter profiles in each documented form, node spacings dx and reference impedances; the ODE solver and the linear interpolator of scipy are taken at their word",
 "Profiles are functions; tests contain no comparison with an analytic tapered line.",
 ["rfTRL.py","resolveTLparams.py"],[("eqnVI / odeint","rfTRL.py:solveVI"),("profile interpretation","resolveTLparams.py:_linfunL")])
p("C09","The ideal coupler is matched, reciprocal, lossless, directive, as asked",
 "For any coupling, length or centre frequency and any frequency the coupler's 4-port S-matrix is symmetric, unitary, has zero reflection at every port and perfect isolation between a port and the far port of the other strip, treats both strips and both ends alike, and at its centre frequency couples exactly kc in amplitude. A coupling given in dB, a length or a centre frequency is equivalent to the other forms of the same quantity.",
 ["inputs"],"all 0 < kc < 1 (or kcdB), all Lc or f0Hz or neither, all frequencies > 0 and port names",
 "Continuum of couplings, lengths and frequencies; no test covers the coupler.",
 ["rfCoupler.py"],[("get1S","rfCoupler.py:get1S"),("parameter resolution","rfCoupler.py:__init__")])
p("C10","Every way of specifying a line leads to the same physical line",
 "Whatever admissible set of line parameters is given (impedance and velocity, L and C, geometry, material constants, resistivity, loss tangent, conductivity, attenuation), the derived series impedance r+jwL and shunt admittance g+jwC satisfy all the documented relations among the parameters involved, in SI units: Z0=sqrt(L/C), v=1/sqrt(LC), coaxial geometry, skin-effect resistance of each conductor, dielectric loss and attenuation constant. Deriving the same quantity along two routes gives the same value.",
 ["inputs","configurations"],"all subsets of parameters the resolver accepts, all positive values, all frequencies and positions along the line",
 "There are dozens of parameter subsets and a different chain of formulas for each; tests use a few of them.",
 ["resolveTLparams.py"],[("equation table","resolveTLparams.py:TLresolver"),("solveit","resolveTLparams.py:solveit")])
p("C11","A frequency table returns its data at its frequencies, interpolation between",
 "A table object returns at every tabulated frequency exactly the stored matrix re-referenced as asked, for scalar and list requests and in any frequency unit, regardless of the order in which frequencies were added, and rf objects without interpolation reject other frequencies. Between frequencies it returns the interpolation (magnitude/angle, real/imaginary or dB as chosen) of the sorted data; sorting or renaming ports permutes rows and columns together; re-referencing the table changes no network. A line given a measured table returns that table's interpolation in place of its own formula.",
 ["inputs","histories"],"all tables, numbers of ports and frequencies (distinct), insertion orders, units, interpolation kinds and requests; scipy's interpolator is taken at its word",
 "Order of insertion, units and port permutations are unbounded; tests only fill tables in increasing order.",
 ["rfObject.py","rfBase.py"],[("rfObject.getS/setS/_interp_/sortports","rfObject.py"),("rfBase.get1S/getS","rfBase.py")],"fs, Ss, ports, sorted, interpOK")
p("C12","Touchstone files written are read back as the same network",
 "An object, whatever unit its own frequencies are in, written as touchstone in any supported unit, number format, parameter type (S, Z, Y) and reference impedance and read back, from a string, a file name or an open file, yields the same frequencies, port names and S-matrices at the reader's reference impedance to the precision printed, also for non-reciprocal 2-ports and objects with more than four ports. Files follow the touchstone version 1 order of coefficients, and items missing in the format line take the standard defaults. A file that gives the impedances of its ports in comments at each frequency (HFSS) is read as data referred to these.",
 ["inputs"],"all numbers of ports and frequencies, complex matrices, four frequency units, three number formats, three parameter types, both writers and all source kinds",
 "Combinations of format, size and values; tests read one file and never write and read back.",
 ["WriteTSF.py","ReadTSF.py","rfBase.py","getlines.py"],[("WriteTSF","WriteTSF.py"),("ReadTSF","ReadTSF.py"),("tsf2str","rfBase.py:tsf2str"),("getlines","getlines.py")])
p("C13","Deembedding undoes embedding",
 "Deembedding lines from ports of a table object and then embedding the same lines (or the other way round) restores the original S-matrix at every frequency, for any length sign and line impedance and leaving the other ports' relations untouched. In a circuit, declaring a block's ports as deembedded yields the S-matrix of the remaining network: connecting that block to the result again reproduces the original.",
 ["inputs","programs"],"all S-matrices, numbers of ports, port subsets, lengths, impedances and frequencies for which the deembedding exists",
 "For every matrix and line; the test deembeds one circuit numerically.",
 ["rfObject.py","rfCircuit.py"],[("rfObject.deembed","rfObject.py:deembed"),("rfCircuit.deembed","rfCircuit.py:deembed")])
p("C14","Reported node voltages and currents solve the circuit for the given excitation",
 "For every excitation of the external ports the reported voltage, current, forward and reflected waves at every node satisfy V = Vf+Vr, Zbase I = Vf-Vr at the requested reference impedance, reproduce the excitation at the external ports, satisfy every block's S-matrix, every junction's and termination's law, and agree between a nested circuit's nodes and the enclosing block's ports, whatever the port names in the enclosing circuit. The S-matrix reported between chosen internal nodes relates the waves of these solutions.",
 ["inputs","programs"],"all circuits (also nested, with remapped ports), excitations, frequencies and reference impedances with a unique solution",
 "Needs every circuit and excitation; tests print solutions without checking Kirchhoff's laws.",
 ["rfCircuit.py"],[("Solution","rfCircuit.py:Solution"),("solve","rfCircuit.py:solve"),("Get_internalSmatrix","rfCircuit.py:Get_internalSmatrix")],"sol, tSol, invM")
p("C15","The maximum voltage reported is never exceeded and is really reached",
 "The maximum voltage reported for an excitation is at least the voltage magnitude at every node and every sampled point of every line in the circuit, nested levels included, and equals one of these magnitudes or the vertex of the parabola through three neighbouring samples of a line. The profiles returned with it contain the true magnitudes |V| for that excitation and reference impedance, ports missing from the excitation of a plain rfBase object count as not excited and unknown ports are rejected. Scaling such a report to another level scales every profile in it by the same factor.",
 ["inputs","programs"],"all objects and circuits, excitations, frequencies, reference impedances and sampled profiles",
 "A universally quantified bound; tests print the maximum for a few circuits.",
 ["rfCircuit.py","rfTRL.py","rfRLC.py","rfBase.py","rfObject.py","maxfun.py"],[("rfCircuit.maxV","rfCircuit.py:maxV"),("rfTRL.maxV","rfTRL.py:maxV"),("maxfun","maxfun.py"),("rfBase.maxV","rfBase.py:maxV")])
p("C16","Copies behave like the original and are independent of it",
 "A copy (copy method, copy.copy or copy.deepcopy) of any rf object, solved or not, and a pickled and restored table object give the same results as the original for every request; a table compares equal to its copy whatever was evaluated, and unequal once either holds other data. Afterwards changing either one (parameters, terminations, replaced blocks, table entries, at any depth) never changes results of the other.",
 ["histories","inputs"],"all object kinds and states before the copy, all changes after it",
 "Aliasing shows only after particular later changes; no stable test modifies a copy.",
 ["rfBase.py","rfCircuit.py","rfTRL.py","rfRLC.py","rfObject.py"],[("__deepcopy__","rfBase.py:__deepcopy__"),("rfTRL.__deepcopy__","rfTRL.py"),("rfObject.__getstate__/__setstate__","rfObject.py")])
p("C17","Setting a parameter by path changes that parameter, and nothing else",
 "Setting attributes through a circuit by dotted path, nested dictionaries, keyword or tuple form, at any depth and several at once, gives every addressed object the new values, leaves all others as they were, and makes all later results those of a circuit built with the new values. The call reports whether any value actually changed; unknown blocks or parameters that cannot be set raise an exception. The paths are the ones listBlocks gives, and findObj and object return the very block a path names.",
 ["inputs","programs"],"all circuit nestings, all addressing forms, all settable parameters and values",
 "All forms and depths with all values; tests use one form on one element.",
 ["rfCircuit.py","rfTRL.py","rfRLC.py","rfBase.py"],[("rfCircuit.set","rfCircuit.py:set"),("rfTRL.set","rfTRL.py:set"),("rfRLC.set","rfRLC.py:set"),("rfBase.set","rfBase.py:set")])
p("C18","Data passed in by the caller are never modified",
 "No constructor, conversion, building operation or evaluation changes the arrays, lists or dictionaries the caller passes (S-matrices, impedances, frequencies, port lists and mappings, parameter and excitation dictionaries, deembedding tables), so using the same data for a second object gives the same result as fresh data. Results handed out for one request are not changed by evaluating another.",
 ["inputs","histories"],"all public operations and argument forms",
 "Aliasing only shows when data are reused in a particular order; tests build fresh data each time.",
 ["rfCircuit.py","rfRLC.py","rfObject.py","rfBase.py","ConvertGeneral.py","rfTRL.py"],[("addblock","rfCircuit.py:addblock"),("rfRLC.getS","rfRLC.py:getS"),("rfObject.deembed","rfObject.py:deembed"),("ConvertGeneral","ConvertGeneral.py")])
p("C19","The logging level has no influence on any result",
 "Every operation succeeds or fails in the same way and returns the same values whether debug logging is on or off.",
 ["configurations","inputs"],"all public operations with logging at DEBUG and at CRITICAL",
 "Debug branches are executed by no test at all.",
 ["config.py","rfCircuit.py","rfBase.py","rfTRL.py","rfObject.py","ConvertGeneral.py","ReadTSF.py"],[("logit/logident/ident","config.py"),("debug branches","rfCircuit.py")])
p("C20","Positions reported along a circuit follow from the blocks' relative positions",
 "The position of every node is the sum of the relative positions of the enclosing blocks and the position of the port in its object; a new junction port takes the position of the first port it joins, external ports keep their positions when others are consumed or reordered, and standing-wave profiles of a line run linearly from the position of its first port to that of its second, at any nesting depth.",
 ["programs","inputs"],"all circuits, nestings, relative positions (also negative) and line lengths",
 "All layouts; tests show plots only.",
 ["rfCircuit.py","rfTRL.py"],[("getpos","rfCircuit.py:getpos"),("xpos bookkeeping","rfCircuit.py:connect"),("maxV positions","rfCircuit.py:maxV")],"xpos of circuits and blocks")
p("C21","A general transmission-line model file is the circuit it describes",
 "Loading a model gives the same S-matrix as building by hand the circuit in which each entry is a line, lumped or arc element with its documented units converted to SI, ports bearing the same name are joined, ports marked open, short or with a termination are terminated so, and the declared port names are the external ports in that order. Variables and expressions are substituted, with caller-supplied values overriding those of the file; inconsistent port declarations are rejected.",
 ["programs","inputs"],"all model structures of the documented form, all values and variable overrides",
 "The only test of this part needs a file that is not in the repository and never passes.",
 ["rfGTL.py"],[("model interpretation","rfGTL.py:__init__"),("getS/getSgtl","rfGTL.py:getS")])
p("C22","All rf objects answer frequency lists and reference impedances in the same way",
 "For every rf object (table, line, lumped element, arc, coupler, circuit, model) a list of frequencies returns, in order, exactly what the single frequencies return, the length of the object is its number of ports and the size of each matrix, and asking for another reference impedance returns the same network re-referenced from the object's own reference impedance. An object placed in a circuit of another reference impedance therefore behaves as the same physical network.",
 ["inputs"],"all object kinds, frequency lists (any order, repetitions), reference impedances",
 "A cross-cutting contract of every object kind for all impedances; tests use the defaults.",
 ["rfBase.py","rfObject.py","rfTRL.py","rfRLC.py","rfCircuit.py","rfCoupler.py","rfArcObj.py"],[("rfBase.getS","rfBase.py:getS"),("rfTRL.getS","rfTRL.py:getS"),("rfRLC.getS","rfRLC.py:getS"),("rfCircuit.getS","rfCircuit.py:getS"),("rfObject.getS","rfObject.py:getS")])
with open('/verif/properties.jsonl','w') as f:
    for x in P: f.write(json.dumps(x)+'\n')
for x in P:
    assert len(x['title'])<=80,(x['id'],len(x['title']))
import jsonschema
sch=json.load(open('/root/.vp/PROPERTIES.schema.json'))
for x in P:
    try: jsonschema.validate(x,sch)
    except Exception as e: print(x['id'],str(e)[:600])
