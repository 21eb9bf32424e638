"""The properties: texts, techniques and levels (source of properties.jsonl and MANIFEST.json)."""


def P(id, title, statement, over, qtext, why, files, mech, technique="", note="", reason=""):
    return {"id": id, "title": title, "statement": statement, "quantifier": {"over": over, "text": qtext},
            "why_tests_cant": why,
            "anchors": {"files": files, "mechanism": [{"name": a, "where": b} for a, b in mech]},
            "technique": technique, "note": note, "reason": reason}


PROPS = [
P("C01", "Derived quantities depend on everything they are computed from",
  "Whenever a quantity that i-PI computes and caches (energies, forces, virials, stresses, masses, frequencies, propagator coefficients, time-step fractions, weights ...) is read, its value is the one its definition gives for the current values of all other quantities it uses. Changing any of those quantities, in any order and at any time during a run, makes every cached value computed from it be recomputed before it is next used.",
  ["histories", "configurations"], "every order of writes and reads of the simulation's quantities, for every simulation that can be configured",
  "tests read a quantity after one or two writes of the obvious input; a missing declaration only shows when a rarely changed input (mass, weight, time step, bias) changes after the first read",
  ["ipi/engine/*.py", "ipi/engine/motion/*.py", "ipi/utils/constrtools.py"],
  [("declared dependencies of cached quantities", "ipi/engine/*: depend_value/depend_array(..., dependencies=[...]), add_dependency, dpipe"),
   ("shared handles", "dproperties() lists")],
  "interprocedural effect analysis: read set of every compute function vs transitive closure of declared dependencies",
  "Sound up to the abstract interpreter's aliasing of object attributes: all reads of cached quantities reachable from a compute function (through helpers, super calls, loops over elements) must lie in the declared dependency closure. Assumes attributes are reached by the names seen in the source and no monkeypatching."),
P("C02", "Cached values: reads are fresh, writes invalidate, views stay linked",
  "Reading a cached quantity (as attribute, element, slice, array operand or through a pipe to another quantity) never yields a value older than the last change of anything it depends on, also when the change was made through a slice or a reshaped view or to a synchronised partner quantity. Writing a quantity marks everything depending on it, directly or indirectly, as stale; a plain assignment to a quantity that is computed automatically is refused; and recomputation from several threads is serialised and never marks a quantity as up to date before its new value is stored.",
  ["histories", "schedules"], "every interleaving of reads, writes, slicing and linking of cached quantities",
  "tests exercise a few sequences of writes and reads; the guarantee is over all sequences, view shapes, synchronisation groups and thread interleavings",
  ["ipi/utils/depend.py"],
  [("refresh on read", "ipi/utils/depend.py: _refresh/__get__/__getitem__/__array__/operators"), ("taint on write", "taint, _taint_synchro, set, __setitem__"), ("view construction", "__getitem__, reshape")],
  "typestate analysis of the dependency engine over all scenario combinations (stale/fresh, synchronised, computed, view)",
  "All paths of every accessor and mutator are explored for every combination of the engine's predicates; the value semantics of numpy and of Python's weakref/lock are trusted."),
P("C03", "Storage of cached quantities is only changed through the cache",
  "No code of i-PI changes the stored value of a cached quantity behind the dependency engine's back: arrays obtained from cached quantities by stripping, slicing, iterating or through cached dictionaries and lists are never modified in place, automatically computed quantities are never assigned, and stored values are never read through a handle without refreshing it. Hence combining, transforming or printing forces, virials, extras, positions or cells never alters the data they were computed from, and reading a quantity twice gives the same value.",
  ["histories", "configurations"], "every function of the code base that obtains (part of) a cached value, whatever was computed before",
  "an in-place change of an alias is only visible when the original is read again before its inputs change, a sequence tests rarely make",
  ["ipi/engine/**", "ipi/utils/**"],
  [("in-place operations on aliases", "ipi/engine/forces.py, normalmodes.py, barostats.py, properties.py, motion/*: dstrip() results"), ("writes through handles", "uses of _value, taint, dstrip(handle)")],
  "flow-sensitive alias/escape analysis: every in-place write is traced to the object whose storage it changes",
  "May-alias analysis over local variables, containers, views and calls up to 8 levels; aliases kept in third-party objects are not followed."),
P("C04", "Observing a simulation does not change it",
  "Evaluating any output property or trajectory frame, writing outputs and storing a checkpoint leave the simulated system unchanged: positions, momenta, cell, thermostat and barostat state, bias, step counter and the random number stream are the same afterwards. Estimators that need displaced configurations work on copies that share nothing with the simulated system and start every time from the current positions and cell. So the trajectory of a run does not depend on which outputs are requested or how often they are written.",
  ["configurations", "histories"], "every property, every trajectory type, every checkpointable object, any stride and order of outputs",
  "tests compare outputs for fixed output lists; a property that disturbs the state shows only in runs that request it",
  ["ipi/engine/properties.py", "ipi/engine/outputs.py", "ipi/inputs/**"],
  [("property and trajectory functions", "ipi/engine/properties.py: property_dict, traj_dict"), ("scratch copies", "Properties.bind: dbeads, dcell, dforces"), ("checkpoint store", "ipi/inputs/**: store()")],
  "interprocedural purity (effect) analysis of every registered property, trajectory, writer and store function",
  "All writes reachable from the observers are classified by the object they change; writes to the scratch copies, to output files and to caches are the only ones accepted."),
P("C05", "A checkpoint restores what was stored",
  "For every object that can appear in a simulation (motion, integrators, thermostats, barostats, ensemble, normal modes, beads, cell, atoms, force fields, force components, outputs, random state ...), storing it into a checkpoint and building it again from that checkpoint gives an object of the same class with the same options: every attribute that is stored is restored from the same field, every option that can be restored was stored, whatever combination of modes and options is in use, and no element of a list of objects is dropped or turned into another kind.",
  ["configurations", "crash_points"], "every class that can be built from an input file, every mode, every option",
  "tests restart a handful of examples; most options and classes are never checkpointed by a test, and a lost option changes a restarted run without an error",
  ["ipi/inputs/**", "ipi/engine/**"],
  [("store and fetch of each input class", "ipi/inputs/*.py, ipi/inputs/motion/*.py"), ("constructors", "ipi/engine/**: __init__")],
  "provenance dataflow: attribute -> field map of store() and field -> attribute map of fetch()+constructor must be inverse, per class and mode",
  "Decided by provenance of values, not by their numbers; formatting and parsing of the values is a separate property. Five defects recorded as known findings (al-kmc and planetary motion)."),
P("C06", "Everything carried from step to step is in the checkpoint",
  "A run stopped at any step and restarted from its checkpoint continues like the uninterrupted run: every piece of state that a step leaves behind for a later step to read -- positions, momenta, cell, thermostat and barostat variables and their accumulated energies, bias and metadynamics work, ramp and alchemical state, optimizer history (Hessian, search direction, old positions, forces and energies, step counters and flags), replica exchange indices, constraint data, the random number stream and the step counter -- is stored in the checkpoint, or can be recomputed from what is stored, for every kind of motion and every mode.",
  ["crash_points", "configurations"], "every step at which the run may stop, every motion class, mode and option",
  "restart tests cover few modes; a state variable left out of the checkpoint only matters in the mode that uses it, when the run is stopped at the wrong moment",
  ["ipi/engine/motion/*.py", "ipi/engine/thermostats.py", "ipi/engine/barostats.py", "ipi/engine/smotion/*.py", "ipi/inputs/**"],
  [("step functions", "ipi/engine/motion/*.py, ipi/engine/smotion/*.py: step()"), ("store", "ipi/inputs/**: store()")],
  "interprocedural liveness: attributes both written and read-before-written by a step (upward exposed) must be stored by the class's input, per mode",
  "Five motion classes (al-kmc, phonons, normal-mode, scphonons, planetary) are outside the analysis because their state is rebuilt from files or from the start of a phase. One defect (cl thermostat parity) is a known finding."),
P("C07", "Random numbers come from the seeded, checkpointed generator of the run",
  "Every random number that a simulation uses is drawn from the generator that its input seeds and its checkpoint stores: no component of the engine draws from another source or makes a generator of its own when it is given one, and each thermostat, barostat, motion and replica-exchange object hands the generator on, on every path, to whatever it is made of. With any number of generator threads a request for an array of random numbers fills the whole requested array, each thread from its own differently seeded generator, and returns only when it is full. Seed, stored and restored state cover all generators, and the parameters of a draw (range, shape, scale, size) reach the generator.",
  ["configurations", "histories"], "every thermostat, barostat and motion class, every composition of them, every number of generator threads and size of array",
  "a component with its own generator gives plausible numbers: only two runs with one seed, or a restart, of just that combination show it; the threaded generator is used in no test",
  ["ipi/utils/prng.py", "ipi/engine/thermostats.py", "ipi/engine/barostats.py", "ipi/engine/motion/*.py", "ipi/engine/smotion/*.py", "ipi/engine/initializer.py", "ipi/engine/forcefields.py"],
  [("generator", "ipi/utils/prng.py: Random"), ("handing on", "bind() of thermostats, barostats, motions: parameter prng"), ("input", "ipi/inputs/prng.py, ipi/inputs/simulation.py")],
  "inventory of random sources; interprocedural dataflow of the generator through bind() along every path; alias, coverage and join analysis of the threaded fill",
  "That the numbers are random enough, or that their order in a parallel run is reproducible when systems are stepped by threads, is not decided."),
P("C08", "Every step is a time-symmetric composition that covers each time exactly",
  "For every integrator, splitting (obabo, baoab) and multiple-time-step setting (any number of levels, odd or even nmts): the sequence of kicks, free ring-polymer and centroid propagations, cell moves, thermostat and barostat operations that make up a step is a palindrome (time-reversible) apart from constraints; the kicks of every force level and the propagations add up to exactly one time step (for each level, over the whole recursion), the thermostats act for one time step, bias forces and the electric field are applied once per outer step, and the clock advances by one time step. A cell move scales positions and momenta inversely and by the flow of the cell velocity for the same time.",
  ["configurations", "inputs"], "every integrator class, splitting, number of multiple-time-step levels and inner steps (odd and even)",
  "tests compare trajectories for a few settings against stored references; an asymmetric or over-long step in one combination of splitting and odd nmts only shows as drift or a wrong distribution",
  ["ipi/engine/motion/dynamics.py", "ipi/engine/motion/constrained_dynamics.py", "ipi/engine/motion/driven_dynamics.py", "ipi/engine/barostats.py", "ipi/engine/normalmodes.py"],
  [("integrators", "ipi/engine/motion/dynamics.py: *Integrator.step, mtsprop, mtsprop_ba, mtsprop_ab"), ("time fractions", "ipi/engine/motion/dynamics.py: get_pdt, get_qdt, get_tdt"), ("cell moves", "ipi/engine/barostats.py: qcstep, pstep"), ("electric field", "ipi/engine/motion/driven_dynamics.py: td_pstep")],
  "abstract interpretation of the step to words over elementary operations (loops symbolic, recursion as nonterminals); palindrome test on the words and summation of time weights as polynomials by induction over the recursion",
  "That the composition samples the right ensemble or that its error is small is not decided. Operations are identified by the quantities they change and by the method of the thermostat, barostat or normal-mode object they call."),
P("C09", "Constraints hold whenever positions move and at the end of each step",
  "With fixed atoms, a fixed centre of mass, holonomic constraints or a fixed centroid, every integrator, for every splitting and multiple-time-step setting, projects the momenta between the last kick or thermostat that can violate the constraint and the next movement of the positions, and again before the step ends; constrained dynamics puts the positions back on the constraint manifold after every movement and projects the momenta afterwards. The projection takes out exactly the momentum of the centre of mass and all momenta of the fixed degrees of freedom, and the initial momenta are projected before the first step.",
  ["configurations", "inputs"], "every integrator class, splitting, number of multiple-time-step levels and inner steps",
  "a missing projection in one branch only shows when a constraint is combined with that splitting and a force or thermostat that violates it",
  ["ipi/engine/motion/dynamics.py", "ipi/engine/motion/constrained_dynamics.py", "ipi/engine/motion/driven_dynamics.py"],
  [("projection of momenta", "ipi/engine/motion/dynamics.py: DummyIntegrator.pconstraints and its calls"), ("holonomic constraints", "ipi/engine/motion/constrained_dynamics.py: proj_cotangent, proj_manifold"), ("set-up", "ipi/engine/motion/dynamics.py: Dynamics.bind")],
  "typestate analysis (constraint violated / satisfied) over the operator words of every integrator, loops and recursion by fixpoint",
  "Convergence of the iterative constraint solver is numerical and not decided."),
P("C10", "Energy added or removed is booked in the conserved quantity",
  "The conserved quantity contains the potential, kinetic, spring, bias, thermostat and barostat energies and the accumulated ensemble work, each exactly once. Whenever a step changes the momenta other than by Hamiltonian dynamics -- a thermostat of any kind acts, cell momenta of fixed components are removed, constraints or the removal of the centre-of-mass velocity project momenta, atoms are kept fixed, a metadynamics hill is added -- the energy taken out is booked with the right sign and weight in the counter that enters the conserved quantity: kinetic energy before minus kinetic energy after, with the masses and momenta that really change. Every thermostat, barostat or counter in use is registered with the ensemble on every path of the set-up.",
  ["histories", "configurations"], "every thermostat, barostat, constraint and option, every number of steps",
  "tests look at short runs with a few thermostats; a missing or doubled contribution shows as a slow drift in one combination of options",
  ["ipi/engine/thermostats.py", "ipi/engine/barostats.py", "ipi/engine/motion/*.py", "ipi/engine/ensembles.py", "ipi/engine/smotion/metad.py"],
  [("heat counters", "ipi/engine/thermostats.py: step (ethermo)"), ("cell masks", "ipi/engine/barostats.py: pstep"), ("constraints", "ipi/engine/motion/dynamics.py: pconstraints"), ("sum", "ipi/engine/ensembles.py: get_econs, add_econs")],
  "global value numbering: the counter increment and the change of the kinetic energy are reduced to canonical polynomials over the values before and after and compared",
  "Algebraic identity of the bookkeeping, not rounding or time-step error. The optimal-noise, GLE matrix and Langevin coefficients themselves are C02/C22."),
P("C11", "i-PI and its clients agree on every message",
  "For every structure, batch, transport (socket, shared memory, MPI) and order of events, what i-PI sends to a client is what the client takes it for, and the client's answer reaches the request it belongs to: headers, tags, field order, types and counts are the same on both sides (POSDATA: cell, inverse cell, atom count, positions; FORCEREADY: potential, atom count, forces, virial, extra string), batches are padded to the announced size and only the real results are handed out, in order, each with its own offset subtracted and its forces placed on its active atoms; status replies mean what they say; malformed values (wrong type, other atom count, extras that are not JSON objects) are detected or handled instead of desynchronising the exchange.",
  ["inputs", "histories", "configurations"], "every path of the send and receive functions of both sides, for symbolic atom counts and batch sizes",
  "tests run a few drivers with one system size and mostly one transport; a field exchanged, shifted or mis-sized on one path shows only with another transport, batch size, active subset or extra string, as wrong forces or a hang",
  ["ipi/interfaces/*.py", "drivers/py/driver.py"],
  [("server, sockets", "ipi/interfaces/sockets.py: Driver, SHMDriver"), ("server, MPI", "ipi/interfaces/mpi.py: InterfaceMPI, MPIWorldManager"), ("client", "drivers/py/driver.py: run_driver, run_driver_mpi"), ("extras", "ipi/interfaces/utils.py: parse_extra")],
  "wire traces: the ordered, typed fields sent and received on every path of both sides, compared with the protocol and with each other",
  "The Python client stands for all clients; the Fortran one is not analysed. Messages put together in ways the evaluator does not follow are not judged."),
P("C12", "Each force request is evaluated exactly once and answered with its own result",
  "For every history of polls, clients connecting, dying, timing out or finishing, a force request goes Queued -> Running -> Done: it is taken by one client or evaluator only when it is Queued, is marked Running when it is taken, is put back in the queue (and its client dropped) if its client fails before the result is complete, and is never lost, evaluated again after it is Done, or left behind. A request becomes Done only when its result (energy, forces of all atoms, 3x3 virial, extras) is complete and owned by the request, with the constant energy offset of the force field subtracted exactly once, and waiters are woken only after that. Nobody uses or releases the result of a request (including the sub-requests of committee, rotation-averaged and cavity force fields) before it is Done, and a waiter notices that the run is being stopped.",
  ["histories", "schedules"], "every interleaving of polls, client failures and completions; every force field class, socket mode (threaded, consolidated, batched, shared memory) and MPI",
  "tests run one healthy client at a time; lost or doubled requests need a client dying between particular operations",
  ["ipi/engine/forcefields.py", "ipi/interfaces/sockets.py", "ipi/interfaces/mpi.py", "ipi/engine/forces.py"],
  [("requests", "ipi/engine/forcefields.py: ForceField.queue/release, FFEval.poll, FFDirect, FFCommittee, FFRotations, FFCavPhSocket"),
   ("clients and jobs", "ipi/interfaces/sockets.py: Driver.dispatch*, InterfaceSocket.pool_distribute, _requeue_disconnected, dispatch_free_client"), ("mpi", "ipi/interfaces/mpi.py: InterfaceMPI"), ("waiters", "ipi/engine/forces.py: ForceBead.get_all")],
  "typestate analysis of requests and jobs over interprocedural effect trees with branch correlation of returned constants",
  "Values of energies and forces are not checked; the mixing of committee members and rotations is outside. A driver that answers with the wrong number of atoms is a fatal error."),
P("C13", "Messages that arrive in pieces, late or never are handled",
  "Whatever way the operating system cuts a message into pieces and delays them, i-PI (socket interface) and the Python driver put every fixed-length header and every array together completely: each receive asks for exactly the bytes still missing, stores them behind those already there and advances by the number received; a timeout in the middle of a message is retried and counted against a limit; a closed connection ends the loop and is reported as a disconnection. Messages are sent completely (sendall). A timeout, disconnection or socket error of one client never escapes into the thread that serves all clients.",
  ["schedules", "fault_sequences"], "every fragmentation of the byte stream, every timeout, reset or close at any byte",
  "local sockets deliver small messages in one piece; partial reads, resets and timeouts occur under load or over networks",
  ["ipi/interfaces/sockets.py", "drivers/py/driver.py"],
  [("server side receive loops", "ipi/interfaces/sockets.py: DriverSocket.recvall, Driver._getstatus, recv_msg"), ("driver side receive loops", "drivers/py/driver.py: recv_data, recv_msg"),
   ("serving thread", "ipi/interfaces/sockets.py: InterfaceSocket.poll, pool_update, pool_distribute, check_job_finished")],
  "dataflow of byte counts in receive loops (linear forms) + exception-flow analysis from every socket operation to the serving thread",
  "The behaviour of recv/recv_into/sendall is the one of Python's socket module. The Fortran/C driver is not analysed. An answer with the wrong number of atoms is a fatal error."),
P("C14", "A stop request ends the run cleanly with a consistent restart file",
  "Whenever and from whichever thread a stop is requested -- EXIT file, wall-clock limit, kill signal, a force field or driver that cannot go on, a motion that has finished -- the registered clean-up functions all run, once, even if one of them fails; threads waiting for forces leave their wait without using an unfinished result, and only after the clean-up; no output is written for a step that was cut short or to closed files. The restart file written on exit holds either the complete state stored before the interrupted step or, after the run has ended by itself, the final state, in both cases with the step to continue from, and i-PI does not end before it is written. Everything that must be closed (force fields, their threads, output files, the simulation) is registered on every path of the set-up, and a motion that has finished ends the run with its status and message.",
  ["crash_points", "schedules"], "every point of a step, of storing the state, of writing outputs and of the clean-up at which a stop request may come, from every thread",
  "tests stop a run at the end of its steps; a request in the middle of a step, of the storing of the state or during the clean-up needs a particular timing",
  ["ipi/utils/softexit.py", "ipi/engine/simulation.py", "ipi/engine/outputs.py", "ipi/engine/forces.py", "ipi/engine/forcefields.py", "ipi/engine/motion/*.py", "bin/i-pi"],
  [("exit routine", "ipi/utils/softexit.py: Softexit.trigger, cleanup, _softexit_monitor"), ("main loop", "ipi/engine/simulation.py: Simulation.run, run_step, softexit, bind"), ("checkpoint", "ipi/engine/outputs.py: CheckpointOutput.store, write"), ("waits", "ipi/engine/forces.py: ForceBead.get_all; ipi/engine/forcefields.py: FFCavPhSocket.queue")],
  "typestate analysis of the exit protocol over interprocedural effect trees; possible status values by constant propagation",
  "A second kill signal during the clean-up and the loss of the machine while the file is written are not covered; nor is the time the clean-up takes."),
P("C15", "No output is lost: earlier files are kept and due rows are complete",
  "i-PI never destroys a file it did not write in this run: every output, checkpoint and data file opened for writing from its start goes through a backup of an existing file under a free name in the same directory; a run continued from a restart appends to its outputs and writes neither headers nor the initial configuration again; a checkpoint file is overwritten only if this run wrote it before; no two outputs write to the same file. Every output is written in exactly the steps in which step+1 is a multiple of its stride, with one row or frame holding all quantities it lists, each bead's frame in that bead's file, labelled with the step it belongs to.",
  ["histories", "configurations"], "every sequence of fresh, continued and repeated runs in one directory, every prefix, stride, list of outputs and number of systems",
  "tests run in an empty directory once; overwriting and interleaving need an earlier run's files, several systems or a continued run",
  ["ipi/utils/io/__init__.py", "ipi/engine/outputs.py", "ipi/engine/simulation.py", "ipi/engine/smotion/*.py", "ipi/engine/motion/*.py", "ipi/utils/instools.py"],
  [("backup", "ipi/utils/io/__init__.py: open_backup"), ("outputs", "ipi/engine/outputs.py: OutputMaker, PropertyOutput, TrajectoryOutput, CheckpointOutput"), ("set up and main loop", "ipi/engine/simulation.py: Simulation.bind, run")],
  "typestate and dataflow analysis over interprocedural effect trees: how each file was opened, and under which conditions rows and frames are written",
  "Files of external programs and of drivers are not covered, nor a disk that is full."),
P("C16", "Energy, forces and virial are the same combination of force components",
  "The potential, forces and virial of a system are the sums over all force components of the component's value, each multiplied by the same factor (component weight times the sum of its multiple-time-step weights), contracted to and expanded from the component's own number of beads by one and the same pair of transformations; the sum over beads contains every bead once. The forces and virial used at a multiple-time-step level contain each component with its weight at that level. A scaled component has energy, forces and virial scaled alike; Suzuki-Chin energy, forces and virial use the same coefficients; a bias enters energy, force and virial alike. Force fields that combine others (committees, averages over rotations) average energy, forces and virial with the same weights and undo for forces and virial exactly the rotation applied to positions and cell. A component is skipped only if its weight is zero.",
  ["configurations", "inputs"], "every number of components, weights, multiple-time-step weights, bead numbers, open paths, and composite force fields",
  "the regression inputs use one or two components with weight one; an inconsistent factor only shows for particular weights, bead numbers or levels",
  ["ipi/engine/forces.py", "ipi/engine/forcefields.py", "ipi/utils/nmtransform.py"],
  [("combination of components", "ipi/engine/forces.py: Forces.*_combine, forces_mts, virs_mts"), ("scaled component", "ipi/engine/forces.py: ScaledForceComponent"), ("contraction", "ipi/utils/nmtransform.py: nm_rescale"), ("committee and rotations", "ipi/engine/forcefields.py: FFCommittee.gather, FFRotations")],
  "global value numbering of every combination: the accumulated term of each sum as a canonical polynomial, compared between energy, force and virial",
  "That the contraction matrices themselves are right (their numbers), and that a driver's forces are the derivative of its energy, is not decided."),
P("C17", "Monte Carlo and replica exchange moves are all or nothing",
  "For replica exchange, atom swaps and alchemical exchanges: when a trial move is rejected every quantity it touched (ensemble parameters, momenta, barostat momenta and reference cells, positions, masses, names) is back at its old value, and when no move is attempted nothing changes; the probability of acceptance is computed from the log-probability or energy of exactly the state before the move and the complete trial state, and is compared with one fresh random number; an accepted exchange exchanges everything that belongs to the ensemble (temperature, pressure, stress, bias, Hamiltonian weights, momenta scaling, reference cell, thermostat variables, replica index), and the jump of the conserved quantity is booked so that it does not change.",
  ["inputs", "histories"], "every pair of replicas or atoms, every outcome of every random number",
  "acceptance is random: a rejection that leaves one quantity changed, or a ratio from a half-built state, biases the sampling without failing a test",
  ["ipi/engine/smotion/remd.py", "ipi/engine/motion/atomswap.py", "ipi/engine/motion/alchemy.py", "ipi/engine/ensembles.py"],
  [("replica exchange", "ipi/engine/smotion/remd.py: ReplicaExchange.step"), ("ensemble swap", "ipi/engine/ensembles.py: ensemble_swap"), ("atom swap", "ipi/engine/motion/atomswap.py: AtomSwap.step"), ("alchemy", "ipi/engine/motion/alchemy.py: AlchemyMC.step")],
  "global value numbering along every accept/reject path: final values compared with the initial values as canonical polynomials",
  "The factor by which GLE variables are scaled in an exchange (which is approximate in the code) is only required to be applied inversely to both replicas."),
P("C20", "Shared data is changed only under its lock, and locks cannot deadlock",
  "Data that several threads of i-PI use -- the request list and batch buffer of a force field, the force-evaluation counter of each bead, the caches and counters of the al-kmc evaluation threads, every use of the MPI library -- is changed only while the lock that protects it is held, whichever method or thread gets there. A thread never takes a non-reentrant lock it already holds, never waits for another thread or for a force while holding a lock the other needs, and every lock taken is released on every path, including exceptions and early returns.",
  ["schedules"], "every interleaving of the main thread, the polling thread, evaluation threads and replica threads",
  "races and deadlocks need particular interleavings that tests on an idle machine do not produce",
  ["ipi/engine/forcefields.py", "ipi/engine/forces.py", "ipi/interfaces/mpi.py", "ipi/engine/motion/al6xxx_kmc.py", "ipi/utils/depend.py"],
  [("force fields", "ipi/engine/forcefields.py: ForceField.queue/release, _threadlock"), ("bead forces", "ipi/engine/forces.py: ForceBead.get_all, _threadlock"), ("MPI", "ipi/interfaces/mpi.py: _lock"), ("kmc caches", "ipi/engine/motion/al6xxx_kmc.py: _threadlock")],
  "lock-set analysis over the interprocedural effect trees of every entry point",
  "The table of protected data is part of the check; reads of the request list without the lock are accepted (as today). Python's GIL atomicity of single list operations is not relied on for changes."),
P("C22", "Control parameters reach every component that uses them",
  "Temperature, pressure, stress, time step and their multiple-time-step fractions are held once; every thermostat, barostat, partial thermostat, integrator, normal-mode propagator and nested motion that uses one of them is linked to the quantity that controls it on every path of the set-up code, so a change made during a run (temperature or pressure ramp, replica exchange, a new time step) reaches all of them and never only some. Composite thermostats (multi, per-mode PILE/NM, ffl, cl ...) propagate their temperature and time step to all their parts and report the heat of all parts.",
  ["histories", "configurations"], "every set-up path (thermostat, barostat, ensemble, nested motion), every later change of a control parameter",
  "ramps and exchanges are run with one or two thermostats; a component that keeps its own copy of a parameter is only wrong after a change",
  ["ipi/engine/thermostats.py", "ipi/engine/barostats.py", "ipi/engine/motion/*.py", "ipi/engine/ensembles.py"],
  [("pipes", "dpipe(...) in bind methods"), ("composite thermostats", "ipi/engine/thermostats.py: ThermoPILE_L, ThermoNMGLE, MultiThermo")],
  "must-dataflow over the set-up code: each controlled parameter is piped from its controller on every path",
  "The table of controlled parameters is derived from the classes (attributes temp, pext, stressext, dt, tdt, pdt, qdt ...) and the objects bound to them."),
P("C18", "Units and input values mean what the user wrote",
  "Every quantity the user gives (in the input, in an initialisation value, in a structure file) reaches the simulation multiplied by exactly the factor of the unit named next to it, and every printed number is the internal value in the unit named next to it: all units and prefixes convert with their physical definition, element masses are the atomic masses, each input and each printed quantity is declared with its own dimension, the units named in a comment line, requested by the user or implied by the file format are applied with this precedence and contradictions are rejected. Input that is not understood (unknown tag, attribute, unit, option, a missing required value, text that is not of the declared type) is rejected with an error and never silently ignored or replaced by a default; nothing of an earlier parse survives a new one.",
  ["inputs", "configurations"], "every unit, prefix, dimension and element; every parse path of an input; every printing path",
  "tests use a handful of units and options; a wrong factor for another unit or a silently ignored tag gives a plausible but wrong simulation",
  ["ipi/utils/units.py", "ipi/utils/inputvalue.py", "ipi/utils/io/inputs/io_xml.py", "ipi/utils/io/__init__.py", "ipi/utils/io/io_units.py", "ipi/engine/initializer.py", "ipi/engine/outputs.py", "ipi/engine/properties.py", "ipi/inputs/**/*.py"],
  [("conversion", "ipi/utils/units.py: unit_to_internal, unit_to_user, UnitMap, UnitPrefix, Elements"), ("parsing", "ipi/utils/inputvalue.py: Input.parse, InputValue.fetch/store"), ("files", "ipi/utils/io/io_units.py: auto_units, process_units")],
  "constant folding of the tables against independent reference data; path-wise term evaluation of the conversion, parsing and printing code",
  "Reference constants (CODATA 2018, IUPAC masses) and the dimension of each named quantity are part of the check. Pressure units are compared to 1e-4 (older CODATA value in the table); 'cal/mol' is taken as the IT calorie."),
P("C19", "A structure written to a file is read back as the same structure",
  "For every structure, cell and unit, what print_file writes in the pdb, xyz and binary formats is read back by read_file/iter_file as the same atoms, coordinates, cell and comment (up to the printed digits): each value is read from the columns or fields it was written to, cell lengths and angles determine the upper triangular cell they came from, the units named in the comment line are recognised and applied, names, masses and coordinates are handed on in their own roles, and a truncated frame is reported instead of returned.",
  ["inputs", "configurations", "fault_sequences"], "every structure size, cell shape, unit and format; files cut off at any line",
  "tests read a few small well-formed files; a shifted column, an exchanged angle or an unrecognised unit shows only for long coordinates, triclinic cells or particular units, as plausible but wrong data",
  ["ipi/utils/io/**/*.py", "ipi/utils/mathtools.py"],
  [("formats", "ipi/utils/io/backends/io_pdb.py, io_xyz.py, io_binary.py: print_*, read_*"), ("cell", "ipi/utils/mathtools.py: h2abc, h2abc_deg, abc2h, genh2abc"), ("units", "ipi/utils/io/io_units.py: auto_units, process_units; ipi/utils/io/__init__.py")],
  "column and field layout of the writers matched with the slices, fields and counts of the readers; canonical comparison of the cell formulas",
  "The ase and json formats are not compared (the first needs ase, the second is serialised by json). Values put together in ways the term evaluator does not follow are not judged."),
]

NA = [
P("N01", "Thermostatted runs sample the canonical distribution",
  "Averages over a long enough trajectory with any thermostat, barostat or replica-exchange scheme converge, up to the error of the time step, to those of the target ensemble at the set temperature and pressure, for every potential.",
  ["inputs", "histories"], "every potential, initial condition, random sequence and length of run",
  "a test runs one short trajectory of one system; the statement is about limits of averages",
  ["ipi/engine/thermostats.py", "ipi/engine/barostats.py", "ipi/engine/motion/dynamics.py", "ipi/engine/smotion/remd.py"],
  [("thermostats", "ipi/engine/thermostats.py: step()"), ("barostats", "ipi/engine/barostats.py: pstep()")],
  reason="quantifies over limits of time averages of floating-point trajectories: no static argument in reach bounds them. Its structural parts (symmetric composition, thermostat parameters follow the control parameters, energy bookkeeping, acceptance ratios) are decided by C08, C10, C17 and C22."),
P("N02", "Energy drift stays bounded for a stable time step",
  "In a run whose time step is below the stability limit of the potential the conserved quantity fluctuates around its initial value without systematic drift, for every integrator.",
  ["inputs", "histories"], "every potential, initial condition, time step below the limit and number of steps",
  "drift is an accumulated numerical effect over millions of steps of an arbitrary potential",
  ["ipi/engine/motion/dynamics.py", "ipi/engine/ensembles.py"],
  [("conserved quantity", "ipi/engine/ensembles.py: get_econs")],
  reason="a bound on accumulated numerical error for arbitrary forces; the static part (time-reversible words, every kick accounted for) is decided by C08 and C10."),
P("N03", "Forces of the bundled potentials are the derivatives of their energies",
  "For every bundled driver potential and every structure the force returned is the negative gradient of the returned energy, and the virial is its derivative with respect to strain.",
  ["inputs"], "every bundled potential and every structure, including those at cut-offs and on special symmetry",
  "tests evaluate few structures and mostly compare with stored numbers",
  ["ipi/pes/*.py", "drivers/f90/*.f90"],
  [("potentials", "ipi/pes/*.py: __call__"), ("fortran driver", "drivers/f90/driver.f90")],
  reason="an identity between numerical functions with neighbour lists, table look-ups and external libraries; symbolic differentiation of Fortran and Python potentials is not available here, and comparing numbers would be a run-time test."),
P("N04", "Optimisers and path searches converge to stationary points",
  "A geometry optimisation, nudged-elastic-band, string or instanton run that reports convergence has reached a stationary point of the requested kind, and every such run on a smooth potential ends.",
  ["inputs"], "every potential, starting structure, optimiser mode and tolerance",
  "convergence depends on the landscape; tests use one system",
  ["ipi/engine/motion/geop.py", "ipi/engine/motion/neb.py", "ipi/engine/motion/stringmep.py", "ipi/engine/motion/instanton.py", "ipi/utils/mintools.py"],
  [("optimisers", "ipi/utils/mintools.py"), ("convergence tests", "ipi/engine/motion/geop.py: exitstep")],
  reason="termination and quality depend on numerical properties of the potential; no static argument bounds them."),
]
