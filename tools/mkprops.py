#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the single source of the property texts)."""
import json, os

P = []


def prop(id, title, statement, over, text, why, files, mech, state=(), observe=(), hook=None):
    assert len(title) <= 80, (id, len(title))
    P.append(
        {
            "id": id,
            "title": title,
            "statement": statement,
            "quantifier": {"over": over, "text": text},
            "why_tests_cant": why,
            "anchors": {
                "files": files,
                "state": [dict(zip(("name", "meaning", "where"), s)) for s in state],
                "mechanism": [dict(zip(("name", "where"), m)) for m in mech],
                "observe_at": list(observe),
                "hook_needed": hook,
            },
        }
    )


prop(
    "C01",
    "Every queued socket evaluation is answered exactly once with its own result",
    "Whatever clients connect, answer, time out, crash or come back, every evaluation handed to a socket force field ends up answered exactly once as long as a working client is available, with the energy (minus the force field's offset), forces, virial and extras that a client computed for exactly the structure of that request (or exactly the active degrees of freedom of it, the others getting zero force); a result computed for another request, or by a client that vanished before delivering it completely, is never delivered. Work that was in the hands of a client that disappeared is given to another client, and never remains assigned to a dead one.",
    ["schedules", "fault_sequences", "configurations"],
    "for all interleavings of request submission and client behaviour (connect at any time, answer late, need initialisation, vanish at any protocol step, stall or hang while it reads a structure, computes or answers, be timed out, reconnect), unix / inet / shared-memory transport, consolidated or one-thread-per-client messaging, batched and single evaluations, with and without an active-atom subset",
    "The socket tests run a handful of well-behaved clients; a crash in the middle of one particular protocol step, a timeout, or a batch that loses its client is never provoked, and the correspondence of results to requests is checked only for a single structure.",
    ["ipi/interfaces/sockets.py", "ipi/engine/forcefields.py"],
    [("poll loop: pool_update / pool_distribute", "ipi/interfaces/sockets.py"), ("Driver.get_status, sendpos, getforce, dispatch", "ipi/interfaces/sockets.py"), ("ForceField.queue / poll / release", "ipi/engine/forcefields.py")],
    [("requests", "queue of pending evaluations", "ForceField.requests"), ("jobs", "which client holds which request", "InterfaceSocket.jobs"), ("clients", "connected clients", "InterfaceSocket.clients")],
    ["bytes on the sockets (scripted clients)", "ForceRequest status/result"],
)
prop(
    "C02",
    "The server follows the i-PI driver protocol on every connection",
    "On each client connection the server sends only complete messages of the documented protocol and only when the client's last reported state allows them: STATUS when no answer is outstanding, INIT (with the replica index and parameter string of the evaluation about to be sent) only to a client that reported NEEDINIT, POSDATA only to one that reported READY, GETFORCE only to one that reported HAVEDATA or to which it has just sent a structure in pipelined operation, and nothing after EXIT; cell, inverse cell, atom count and positions (all atoms, or just the active ones) have the documented layout and values. When the interface is closed every client still connected is told EXIT and the unix socket file is removed.",
    ["schedules", "histories", "configurations"],
    "for all histories of client status answers, request streams and faults, for the plain, shared-memory, active-subset and batched variants of the protocol",
    "The tests run one cooperative client and never look at the byte stream; a message sent in the wrong client state is absorbed by a tolerant client.",
    ["ipi/interfaces/sockets.py"],
    [("Driver.get_status/initialize/sendpos/getforce", "ipi/interfaces/sockets.py"), ("InterfaceSocket.close", "ipi/interfaces/sockets.py")],
    [("driver.status", "state the client last reported", "Driver.status")],
    ["bytes received by scripted clients"],
)
prop(
    "C03",
    "The bundled drivers answer every legal protocol conversation correctly",
    "The Python driver and the Fortran driver shipped with i-PI, talking to any server that follows the protocol, answer STATUS with the state they are really in (READY when they hold no result, HAVEDATA when a structure was received and its result not yet collected, NEEDINIT before the INIT message a driver asks for), return on GETFORCE the energy, forces, virial and extras of the most recently sent structure with the byte counts announced, and leave on EXIT or when the server disappears.",
    ["histories", "configurations"],
    "for all legal sequences of STATUS / INIT / POSDATA / GETFORCE / EXIT messages, with a constant number of atoms per connection, including repeated structures, polling in any state, renewed initialisation, results collected or not before the next structure or before leaving, batches, and the unix, inet, shared-memory and MPI transports each driver supports",
    "The tests run the drivers only behind the i-PI server, which produces one fixed message order; other legal orders are never sent.",
    ["drivers/py/driver.py", "drivers/f90/driver.f90", "drivers/f90/fsockets.f90"],
    [("message loop of run_driver", "drivers/py/driver.py"), ("message loop of driver.f90", "drivers/f90/driver.f90")],
    [], ["bytes sent by the driver process"],
)
prop(
    "C04",
    "Client selection honours the matching policy, weights and freshness",
    "Pending evaluations are handed to free clients by the configured matching policy. With 'auto', first clients take pending evaluations of the replica they served last, then clients that have served nothing yet, then clients that have not settled on one replica, and finally any free client takes any pending evaluation; with 'any' free clients take the oldest pending ones; with 'lock' a client only ever serves the replica it first served, for as long as it lives, and newcomers do not take a replica another connected client is serving; batched clients take the next evaluations in order. Among equally suitable choices clients go in order of connection and evaluations in order of submission. No evaluation is with two clients at once, and no free client that could take an evaluation of the queue being worked through is left without.",
    ["schedules", "configurations", "histories"],
    "for all histories of requests of several replicas and of clients becoming free, connecting and dying, and every matching policy",
    "Unit tests use a single client or a single replica, so the assignment policy is never observable in them.",
    ["ipi/interfaces/sockets.py"],
    [("match lists in pool_distribute / dispatch_free_client", "ipi/interfaces/sockets.py")],
    [("driver.lastreq", "replica last served", "Driver.lastreq")],
    ["which client receives which structure (wire)"],
)
prop(
    "C05",
    "MPI dispatch gives each worker its own requests and every request its own answer",
    "With drivers launched over MPI every driver group is assigned to exactly one force field, the one it was launched for (all of them when there is only one), and an inconsistent launch is refused; every queued evaluation is sent to exactly one idle worker of its own force field after that worker was initialised for it, each worker has at most one message outstanding, and each request completes exactly once with the energy, forces, virial and extras which that worker computed for that structure, also when batched. The polling threads of different force fields never use the communicator at the same time. On shutdown every worker receives exactly one EXIT and no evaluation is lost before that.",
    ["schedules", "configurations"],
    "for all numbers of force fields, workers, batch sizes and orders in which workers answer",
    "The tests use a fixed world and a fixed answering order; orders in which workers of different force fields complete are chosen by the MPI runtime.",
    ["ipi/interfaces/mpi.py", "ipi/engine/forcefields.py"],
    [("MPIWorldManager handshake", "ipi/interfaces/mpi.py"), ("InterfaceMPI.poll/_dispatch/_collect/close", "ipi/interfaces/mpi.py")],
    [], ["messages exchanged through the communicator"],
)
prop(
    "C06",
    "Cached quantities always equal a fresh evaluation, lazily and at most once",
    "Reading any quantity managed by the dependency-tracking library, directly, through a kept reference or through a view of some of its elements, yields exactly the value obtained by evaluating its definition on the current primary values, whatever sequence of reads, whole or partial writes through any of those paths, pipes and changes of synchronized representations came before. A derived quantity is re-evaluated only when it is read and something upstream was written since its last evaluation, and then once, even when several threads read it concurrently; assigning to a derived quantity as such is refused and leaves every value unchanged.",
    ["histories", "schedules"],
    "for all finite sequences of reads and writes over networks containing scalars, arrays, views, derived values, pipes and synchronized pairs, and all interleavings of concurrent readers",
    "test_depend.py checks a few hand-picked sequences of two or three operations; staleness errors need particular orders of partial writes, kept views and synchronized peers.",
    ["ipi/utils/depend.py"],
    [("taint / update_auto / update_man / _taint_synchro / _refresh", "ipi/utils/depend.py")],
    [("tainted", "stale mark", "depend_base._tainted"), ("manual", "peer last written", "synchronizer.manual")],
    ["public attribute reads and writes; calls of the user's functions"],
)
prop(
    "C07",
    "No observable of a running simulation is ever stale",
    "After any change to a simulation's state through its public interface (positions or momenta of beads, centroid or normal modes, cell, masses, temperature, pressure, time step, force weights, thermostat and barostat parameters), every derived quantity (forces, potentials, kinetic energies, stresses, normal-mode coordinates and frequencies, spring energies, integrator and thermostat coefficients, conserved quantity, output properties) read from any component equals the value computed by an identical simulation built from scratch in the new state. Forces are evaluated only when positions or cell really changed since the last evaluation and somebody needs them.",
    ["histories", "configurations"],
    "for all sequences of changes and reads, across ensembles, bead numbers, force components and multiple systems",
    "Tests change one input and read one output right away; a missing dependency link shows only when a derived value was cached before some other input changed.",
    ["ipi/engine/beads.py", "ipi/engine/normalmodes.py", "ipi/engine/forces.py", "ipi/engine/cell.py", "ipi/engine/ensembles.py", "ipi/engine/thermostats.py", "ipi/engine/barostats.py", "ipi/engine/motion/dynamics.py", "ipi/engine/properties.py"],
    [("depend/dpipe declarations in bind()", "ipi/engine/*")],
    [], ["public attributes of Simulation/System and its properties"],
)
prop(
    "C08",
    "A simulation restarted from a checkpoint continues the same trajectory",
    "Stopping at any step and restarting from the RESTART or checkpoint file written then (with full-precision output) reproduces the trajectory, the properties, the random-number stream and the remaining output of the uninterrupted run, for every kind of motion that is deterministic given the random stream; restarting repeatedly changes nothing more.",
    ["crash_points", "configurations", "histories"],
    "for every step at which a run is split, any number of consecutive splits, and all supported ensembles, thermostats, barostats, replica-exchange, metadynamics-style and multi-motion set-ups",
    "The restart tests split one run at one step for a few NVE/NVT inputs and compare the end point.",
    ["ipi/engine/simulation.py", "ipi/inputs/simulation.py", "ipi/engine/outputs.py", "ipi/utils/prng.py"],
    [("InputSimulation.store/fetch", "ipi/inputs/simulation.py"), ("CheckpointOutput", "ipi/engine/outputs.py")],
    [], ["output files of the two runs", "public state"],
)
prop(
    "C09",
    "Whenever and however a run ends, RESTART describes a completed step boundary",
    "Whether a run ends because all steps are done, the EXIT file appears, the time limit expires, a motion finishes or an exit is requested at any point in the middle of a step, the RESTART file left behind describes the state and step number at a completed step boundary (never a partially propagated one) and the exit handlers run exactly once, after which all output is flushed and force fields are stopped. A later run from that file performs exactly the remaining steps.",
    ["crash_points", "schedules", "configurations"],
    "for every point of a step at which the exit request can arrive, with or without rollback, from the main or another thread, once or several times",
    "Tests stop runs only through the total step count.",
    ["ipi/engine/simulation.py", "ipi/utils/softexit.py"],
    [("Softexit.trigger", "ipi/utils/softexit.py"), ("Simulation.softexit, run", "ipi/engine/simulation.py")],
    [], ["RESTART file", "registered handlers"],
)
prop(
    "C10",
    "Each output holds exactly one record per due step, and every record is current",
    "Every property and trajectory output contains one record for the initial configuration of a fresh run and then one record for each completed step whose number is a multiple of its stride, in increasing order, none missing and none duplicated, each labelled with its step and holding the values of that step; this remains true for the files produced across interruptions by exit requests and restarts (with the default of saving the state at every step), and for every mix of strides, systems, beads and output kinds. The step in which a motion reports completion ends the run and is not recorded. Checkpoints are written at their own stride with the step they describe.",
    ["configurations", "crash_points", "histories"],
    "for all strides, numbers of steps, systems and beads and all split points of a run",
    "Tests compare a few fixed runs with stride 1 or 2 against stored files.",
    ["ipi/engine/outputs.py", "ipi/engine/simulation.py"],
    [("Simulation.run output section", "ipi/engine/simulation.py"), ("PropertyOutput/TrajectoryOutput/CheckpointOutput.write", "ipi/engine/outputs.py")],
    [], ["output files"],
)
prop(
    "C11",
    "Existing output is never destroyed",
    "Starting a run never overwrites or deletes data that is already there: files that a fresh run would write are first moved to a backup name which was not in use, files of a restarted run are appended to, and numbered checkpoints never replace earlier ones. At every instant there is a complete and loadable checkpoint once one has been written.",
    ["histories", "crash_points", "configurations"],
    "for all sets of files present beforehand, all sequences of fresh and restarted runs in one directory, and a crash at any point of writing a checkpoint",
    "Tests start in an empty directory and never run twice in it.",
    ["ipi/utils/io/io_units.py", "ipi/utils/io/backends", "ipi/engine/outputs.py", "ipi/utils/io/__init__.py"],
    [("open_backup", "ipi/utils/io/__init__.py"), ("CheckpointOutput.write", "ipi/engine/outputs.py")],
    [], ["directory contents"],
)
prop(
    "C12",
    "Every integrator step is a complete, symmetric splitting of the requested time",
    "One step of every dynamics ensemble, for any time step, any nesting of multiple-time-step levels and either thermostat splitting, applies a time-symmetric (palindromic) sequence of sub-propagations whose durations add up, for each force level, the free-particle/ring-polymer motion, the barostat and the thermostat, to exactly one time step, with level-l forces (including the Suzuki-Chin, bias and Hamiltonian-weight terms, on the innermost level) applied prod(nmts[:l+1]) times as often and the impulse of each force level always evaluated on current positions. With the random parts switched off the propagation, constant pressure included, is therefore reversible (the state is recovered by as many steps with reversed momenta) and the fluctuation of the conserved quantity is of second order in the time step. The elapsed simulation time advances by exactly one time step per step.",
    ["configurations", "histories"],
    "for all ensembles, splittings, numbers of MTS levels and multiplicities, bead numbers and changes of the time step between steps",
    "Regression tests freeze the result of a few (mostly single-level) integrators; a wrong inner coefficient at deeper nesting still gives a plausible trajectory.",
    ["ipi/engine/motion/dynamics.py", "ipi/engine/barostats.py", "ipi/engine/thermostats.py"],
    [("mtsprop / step / pstep / qcstep / tstep", "ipi/engine/motion/dynamics.py")],
    [], ["positions at which forces are requested and momentum increments", "thermostat and barostat calls"],
)
prop(
    "C13",
    "Replica exchange permutes ensembles consistently and rejects without trace",
    "Through any sequence of attempted swaps the replica index always remains a permutation, each ensemble (temperature, pressure, biases) is held by exactly the system the index says, an accepted swap exchanges the ensembles of exactly two systems and rescales their momenta by the temperature ratio while leaving the conserved energy accounting intact, and a rejected swap leaves every system as it was (the momenta up to rounding). Acceptance follows the Metropolis rule with the ensembles' full statistical weights, one random number per attempted swap.",
    ["histories", "inputs"],
    "for all sequences of swap attempts and outcomes of the random numbers, numbers of replicas, temperatures, pressures and biases",
    "The regression test runs a few steps with one seed; rejection bookkeeping errors do not show in averages.",
    ["ipi/engine/smotion/remd.py"],
    [("ReplicaExchange.step", "ipi/engine/smotion/remd.py")],
    [], ["system ensembles, momenta, repindex, PARATEMP file"],
)
prop(
    "C14",
    "Fixed atoms never move and constrained motion conserves what it promises",
    "Atoms listed as fixed keep their positions exactly and their momenta at zero, whatever the ensemble, thermostat, splitting or optimiser and sequence of steps (when the cell changes they keep their position relative to the cell), entries of the cell held fixed are not strained, and if the centre of mass is fixed its momentum stays zero and its position does not move under thermostatted and unthermostatted dynamics with forces that add up to zero; the kinetic energy removed by enforcing this, also that of momenta the user supplied, is accounted for in the conserved quantity.",
    ["configurations", "histories"],
    "for all dynamics ensembles and geometry optimisers, every subset of fixed atoms, thermostats, multiple-time-step levels, initial momenta, and numbers of beads and steps",
    "Only a few example inputs use fixatoms, and they check nothing about them.",
    ["ipi/engine/motion/dynamics.py", "ipi/engine/motion/motion.py", "ipi/engine/motion/geop.py"],
    [("pconstraints", "ipi/engine/motion/dynamics.py")],
    [], ["positions, momenta, conserved quantity"],
)
prop(
    "C15",
    "Composite and in-process force fields answer each request from all its parts",
    "A composite force field (committee, rotational averaging, cavity coupling) and the in-process force fields (direct, batched direct, function based) complete a request only after all the component evaluations belonging to that very request are finished, with the weighted mean (energies, forces, virials, with the energy offset applied exactly once, and the extras of every member, in order) of exactly those, and release all component requests; requests overlapping in time or finishing in any order never mix, and a batched evaluation returns to each request its own row. No request is left unanswered when the force field is idle.",
    ["schedules", "configurations"],
    "for all completion orders of component evaluations, any number of overlapping requests, members, weights and batch sizes",
    "Tests evaluate one request at a time with members that finish in order.",
    ["ipi/engine/forcefields.py"],
    [("FFCommittee.queue/check_finish/gather/release", "ipi/engine/forcefields.py"), ("FFDirect / FFEval poll", "ipi/engine/forcefields.py")],
    [], ["ForceRequest status and result"],
)
prop(
    "C16",
    "Monte Carlo moves either happen completely or leave no trace",
    "An attempted Monte Carlo move (particle swap, alchemical isotope exchange) that is rejected leaves positions, momenta, forces, masses, names and conserved energy exactly as before; an accepted one changes exactly the two exchanged particles (a swap exchanges the positions of all their beads, an isotope exchange their names and masses with the momenta rescaled at constant kinetic energy), leaves the forces equal to those of the new configuration, and its full energy change (physical, bias and spring energy) is accounted for so that the conserved quantity is continuous. The decision is the Metropolis rule for that energy at the system's temperature, one random number per try, and only atoms of the listed names take part, in pairs of different names.",
    ["histories", "inputs"],
    "for all configurations, pairs of particles and outcomes of the random numbers, interleaved with dynamics",
    "Regression examples run a few steps with one seed and only compare averages.",
    ["ipi/engine/motion/atomswap.py", "ipi/engine/motion/alchemy.py"],
    [("AtomSwap.step", "ipi/engine/motion/atomswap.py"), ("AlchemyMC.step", "ipi/engine/motion/alchemy.py")],
    [], ["system state before and after"],
)
prop(
    "C17",
    "Inputs written by i-PI are read back as the same inputs",
    "Any input tree the program can hold is written as text that parses back to the same tree (same fields, values, attributes, units and order), and a simulation built from a written checkpoint writes that same checkpoint again; input that names an unknown field, omits a required one, or gives a value outside its options is rejected with an error rather than ignored.",
    ["inputs"],
    "for all well-typed values of every field kind (scalars, strings, booleans, tuples, lists, dictionaries, arrays of any shape and dtype, with units, empty or not) and all malformed variations",
    "Tests parse a few fixed files.",
    ["ipi/utils/inputvalue.py", "ipi/utils/io/inputs/io_xml.py"],
    [("Input.parse/write, read_value/write_value", "ipi/utils/inputvalue.py"), ("xml_parse_string, xml_write", "ipi/utils/io/inputs/io_xml.py")],
    [], ["text and parsed values"],
)
prop(
    "C18",
    "The random stream is a pure function of seed and saved state",
    "Saving the state of the random-number generator after any sequence of draws (uniform, Gaussian, gamma, integers, shuffles, arrays, any number of threads) and restoring it into another generator makes both produce the same numbers from then on; two generators with the same seed, number of threads and draws agree, different threads never share a stream, and every requested array is filled entirely with fresh numbers.",
    ["histories", "configurations"],
    "for all sequences of draws of all kinds, sizes and thread counts, and every point at which the state is saved",
    "Tests save and restore once after a few draws of one kind with one thread.",
    ["ipi/utils/prng.py", "ipi/inputs/prng.py"],
    [("Random.get_state/set_state, gfill_threaded", "ipi/utils/prng.py"), ("InputRandom.store/fetch", "ipi/inputs/prng.py")],
    [], ["numbers returned"],
)
prop(
    "C19",
    "Run control performs exactly the requested steps, each by every mover in order",
    "A run performs steps from its current step number up to the requested total and not one more or less; in each step every system's motion (and, for a list of motions, each of them in the listed order, with its own time step) and then the multi-system motion is applied once, every system is left at the same step, and the run stops early only when a motion reports completion (the step is then finished by all systems, without the remaining motions of that list and the multi-system motion) or an exit is requested; running in several chunks is the same as running once.",
    ["configurations", "histories"],
    "for all total step counts, starting steps, chunkings, numbers of systems, compositions of motions and steps at which some of them finish",
    "Tests use one system with one motion and one total.",
    ["ipi/engine/simulation.py", "ipi/engine/motion/multi.py", "ipi/engine/smotion/multi.py"],
    [("Simulation.run / run_step", "ipi/engine/simulation.py"), ("MultiMotion.step", "ipi/engine/motion/multi.py")],
    [], ["calls of motion steps, step counter"],
)
prop(
    "C20",
    "Forces are the declared weighted, contracted combination of the components",
    "At every moment the total force, potential and virial of a system are the sums over force components of weight times MTS weight times bead-number contraction of each component evaluated on the current positions and cell; the MTS levels with unit weights sum up to the total, components with zero weight are not evaluated, and copying or transferring forces between force objects makes the target indistinguishable from one evaluated there.",
    ["configurations", "histories"],
    "for all numbers of components, weights, MTS weights, bead contractions, and histories of transfers",
    "Tests check contraction for a few bead numbers with a single component.",
    ["ipi/engine/forces.py"],
    [("Forces.bind, forces_mts, transfer_forces", "ipi/engine/forces.py")],
    [], ["force/pot/vir attributes, requests received by force fields"],
)

if __name__ == "__main__":
    out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
    with open(out, "w") as fh:
        for p in P:
            fh.write(json.dumps(p) + "\n")
    print(len(P))
