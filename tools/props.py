#!/usr/bin/python3
"""Single source of /verif/properties.jsonl and /verif/MANIFEST.json (run after editing)."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
from checks import CHECKS

P = []


def prop(id, title, statement, over, text, why, files, mech, observe, state=(), technique="", note=""):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech,
                  observe=observe, state=list(state), technique=technique, note=note))


prop("T01", "Tracking follows the relativistic equation of motion",
     "For every particle (any charge-to-mass ratio and energy), every external electromagnetic field varying in space and time, and every time step and number of steps, the tracked trajectory is the documented Vay leap-frog solution: it stays finite, is exact in its known special cases (field-free drift, magnetic-field energy conservation, E x B drift balance), converges to the true solution with second order in the step and is reversible in time. "
     "Position, time, momentum (beta*gamma) and acceleration recorded at every step belong together: they describe the particle at one common instant. "
     "This holds for the particle, and in the same way for every particle of a bunch and of a beam.",
     ["inputs", "histories"], "all particles, fields, time steps and numbers of steps, through the particle, bunch and beam interfaces",
     "The tests track a handful of electrons in one homogeneous field, one undulator and one loop, and compare final coordinates with loose limits; field shapes, charge states, energies, step sizes and step sequences are not varied.",
     ["src/particle.cpp", "src/particle.h", "src/bunch.cpp", "src/beam.cpp"],
     [("leap-frog push and setup of the half step", "src/particle.cpp InitVay/StepVay"), ("looping over particles and bunches", "src/bunch.cpp, src/beam.cpp InitVay/StepVay")],
     ["trajectory read-out of a particle", "current particle coordinates"],
     technique="property-based testing: differential against an independent long-double reference integrator, plus metamorphic relations (reversal, frame rotation, step refinement)",
     note="Random modes fields and elements, up to a few hundred steps per case; the reference integrator follows the published algorithm.")

prop("T02", "Particles are tracked independently of their companions",
     "What a particle does in given fields depends only on its own initial state: splitting or merging bunches, reordering particles, copying, adding other particles or other bunches, or moving its state through the exchange buffers leaves its trajectory unchanged. "
     "Total charge, particle number and per-bunch contents of a beam are those of the parts it was built from; macro-particles with the same charge-to-mass ratio follow the same trajectory.",
     ["inputs", "histories"], "all compositions of beams and bunches, all orders of operations, all fields",
     "The tests always build one bunch in one way, so no test compares two ways of composing the same beam.",
     ["src/bunch.cpp", "src/beam.cpp", "src/particle.cpp"],
     [("bunch and beam composition", "src/bunch.cpp Add/copy constructor, src/beam.cpp Add"), ("exchange buffers", "bufferStep/setStepFromBuffer, bufferPoints, serialize")],
     ["particle trajectories", "charge and particle counters"],
     technique="stateful and metamorphic property-based testing over compositions of beams",
     note="Bitwise comparison of trajectories between differently composed beams.")

prop("T03", "Stored trajectories are read, shifted, mirrored and copied faithfully",
     "Everything recorded in a particle's trajectory can be read back unchanged for every index (indices out of range are refused), interpolation between stored points is linear and reproduces the points themselves (zero outside of the recorded time), and shift, mirror and charge scaling transform every stored point and the current state and nothing else; tracking continued afterwards follows the transformed path. "
     "Storing a particle into a transfer buffer and restoring it, or copying it, gives an identical particle for every trajectory length; pre-allocation and any order of appends never loses or invents points or touches memory outside the buffers.",
     ["inputs", "histories"], "all sequences of storing, tracking, transforming, copying and buffering operations",
     "The tests only ever read back trajectories created by straightforward tracking; shift, mirror, buffers and pre-allocation boundaries are not exercised together.",
     ["src/particle.cpp", "src/particle.h"],
     [("trajectory storage", "src/particle.cpp storeTrajectoryPoint, preAllocate, TrajTime/TrajPoint/TrajMomentum/TrajAccel"), ("transformations", "Shift, Mirror"), ("buffers", "serialize, bufferPoints, copy constructor")],
     ["trajectory accessors", "transfer buffers"],
     technique="stateful model-based property testing under ASan/UBSan",
     note="Operation sequences against a plain list model, built with address and undefined-behaviour sanitizers.")

prop("R01", "Radiated fields are the retarded Lienard-Wiechert fields",
     "For every trajectory and every observation point and time, the field of a particle is the retarded field of a moving charge: velocity and radiation part evaluated at the emission time found on the stored trajectory, uniform motion assumed before the trajectory starts and no field after its end. "
     "Hence fields scale with charge, are invariant under common shifts in space and time and covariant under rotation and reflection, and reduce to the Coulomb field of a charge at rest and the boosted Coulomb field of a charge in uniform motion, whatever the time the trajectory starts at.",
     ["inputs"], "all trajectories, observation points and observation times",
     "The tests look at one charge at rest, one uniformly moving charge and one undulator in forward direction, with wide tolerances, and always start trajectories at t=0.",
     ["src/particle.cpp"],
     [("retardation and field formula", "src/particle.cpp RetardedTime, RetardedField")],
     ["field returned by particle, bunch and beam"],
     technique="property-based differential testing against an independent long-double Lienard-Wiechert evaluation, with symmetry relations",
     note="The tolerance follows the linear interpolation of the stored points, which is the documented model.")

prop("R02", "Time-domain field recording conserves the radiated field",
     "Recording the radiation of a particle, bunch or beam on any time grid at any observation point yields, for every sample, the average of the retarded field over the time bin: the time integral of the recorded trace equals the time integral of the field over the window whatever the bin width, and contributions outside the window are dropped without disturbing the rest. "
     "Recording is additive over particles and over repeated calls, independent of how the window is cut into pieces, and never writes outside the trace.",
     ["inputs"], "all trajectories, observation points, windows and bin widths (finer and coarser than the tracking step)",
     "One test records one undulator trajectory on one grid.",
     ["src/particle.cpp", "src/bunch.cpp", "src/beam.cpp"],
     [("distribution of field contributions to time bins", "src/particle.cpp integrateFieldTrace")],
     ["recorded field traces"],
     technique="property-based testing against numerically integrated reference fields, additivity and re-binning relations, sanitizer instrumentation in F01/T03",
     note="Reference bin averages are integrated in long double.")

prop("F01", "Field traces form a consistent sampled-signal algebra",
     "A field trace behaves as uniformly sampled electromagnetic signal: arithmetic acts sample by sample and refuses incompatible traces, look-up interpolates linearly and fades to zero outside, out-of-range access raises the documented error, the derivative is the slope of the samples, and energy density is the sum of the Poynting flux. "
     "Retarding, transforming to other axes and reading/writing the raw buffer preserve the signal, for every trace length including zero and one sample.",
     ["inputs", "histories"], "all traces (lengths, time axes, contents) and all operation sequences on them",
     "No existing test exercises the trace class apart from simple recording.",
     ["src/fieldtrace.cpp", "src/fieldtrace.h"],
     [("trace arithmetic, interpolation, retardation", "src/fieldtrace.cpp")],
     ["samples, times and integrals of a trace"],
     technique="property-based testing against a vector-based reference model under ASan/UBSan",
     note="Includes operation sequences and index boundaries.")

prop("L01", "A lattice is the exact sum of its placed elements",
     "After any history of adding and removing elements the lattice holds exactly the elements added and not removed, in order, rejects every out-of-range request, destroys exactly the elements it still owns, and reports at every point and time the plain sum of their fields. "
     "Placing an element elsewhere in space and time only shifts its field pattern; field and vector arithmetic obey the vector-space rules.",
     ["histories", "inputs"], "all sequences of lattice operations, all elements, placements, points and times",
     "The tests use lattices with one element, mostly at the origin, and never remove one.",
     ["src/fields.cpp", "src/fields.h", "src/vector.cpp"],
     [("lattice container", "src/fields.cpp Lattice"), ("placement", "src/fields.cpp LocalizedField::Field"), ("field and vector arithmetic", "src/fields.cpp ElMagField, src/vector.cpp")],
     ["field value at a point", "element count and access"],
     technique="stateful model-based property testing plus metamorphic placement relations",
     note="List model with destruction counters; shifts and sums compared to rounding precision.")

prop("L02", "Magnets deliver the documented field shape everywhere",
     "A hard-edge dipole has its field exactly between its two planes and none outside; a soft-edge dipole falls from 75% to 25% over the stated transition length at each face and vanishes far outside. "
     "Planar and transverse-gradient undulators have the stated period, peak field, gradient, number of periods, linear end ramps and K value, vanish outside, carry no electric field, and satisfy the static Maxwell equations in their regular part.",
     ["inputs"], "all magnet parameters and all points in space",
     "Two tests send one particle through one dipole and one undulator.",
     ["src/dipole.cpp", "src/undulator.cpp"],
     [("dipole field", "src/dipole.cpp LocalField"), ("undulator field", "src/undulator.cpp LocalField, Setup")],
     ["field value at a point", "reported undulator parameters"],
     technique="property-based testing against closed forms and numerical divergence/curl",
     note="The off-axis field inside the end ramps and with pole modulation is only compared with the documented product form (it is not Maxwellian by construction).")

prop("L03", "Optical waves and packets are Gaussian beams of the stated power",
     "A Gaussian wave or wave packet propagates along z at the speed of light with the stated wavelength, polarised along x with magnetic field E/c, the stated complex amplitude at the waist, mode size growing with the stated Rayleigh range, and the same power through every transverse plane. "
     "A packet has its peak at the stated place and time with the stated duration; the field is finite everywhere including the waist plane and the axis.",
     ["inputs"], "all wavelengths, Rayleigh ranges, complex amplitudes, durations, placements, points and times",
     "No existing test evaluates the optical field elements.",
     ["src/wave.cpp", "src/wave.h"],
     [("wave field", "src/wave.cpp LocalField, Setup")],
     ["field value at a point"],
     technique="property-based testing against the closed form and integral relations (power, envelope, periodicity)",
     note="The Gouy phase is not part of the documented model and not demanded.")

exec(open(os.path.join(V, "tools", "props2.py")).read()) if os.path.exists(os.path.join(V, "tools", "props2.py")) else None

NOT_CLAIMED = {}


def main():
    with open(V + "/properties.jsonl", "w") as f:
        for p in P:
            f.write(json.dumps({
                "id": p["id"], "title": p["title"], "statement": p["statement"],
                "quantifier": {"over": p["over"], "text": p["text"]}, "why_tests_cant": p["why"],
                "anchors": {"files": p["files"], "mechanism": [{"name": a, "where": b} for a, b in p["mech"]],
                            "state": [dict(name=a, meaning=b, where=c) for a, b, c in p["state"]],
                            "observe_at": p["observe"], "hook_needed": None}}) + "\n")
    checks, na = [], []
    for p in P:
        if p["id"] in CHECKS:
            checks.append({"property": p["id"], "quick_cmd": "./run.py %s quick" % p["id"],
                           "thorough_cmd": "./run.py %s thorough" % p["id"],
                           "evidence_file": "evidence/%s.json" % p["id"],
                           "technique": p["technique"], "level": "exploration", "level_note": p["note"]})
        else:
            na.append({"property": p["id"], "reason": NOT_CLAIMED.get(p["id"], "check under construction")})
    m = {"version": 1, "setup_cmd": "./run.py --build", "checks": checks, "not_applicable": na,
         "notes": "Every check rebuilds the library from /repo/src with its own harness, generates cases from VERIF_SEED, "
                  "shrinks failures to a choice tape and writes it to replay/ (replay with ./run.py --replay FILE). No hooks in /repo are needed."}
    with open(V + "/MANIFEST.json", "w") as f:
        json.dump(m, f, indent=1)
        f.write("\n")
    print(len(P), "properties,", len(checks), "checks")


main()
