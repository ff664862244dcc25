"""Which monitors decide which property."""
import importlib

MON = {
    "C01": ("m_push", 2000, "each case is one lepton trajectory (random field, momentum, mass, charge, step size) compared step by step with an independent high-order integrator and with exact solutions; non-trivial when the particle moved; distinct by its drawn parameters"),
    "C02": ("m_push", 1000, "each case is one radiation-reaction trajectory compared with an independent integration of the Landau-Lifshitz equation; distinct by its drawn parameters"),
    "C03": ("m_emit", 3000, "each case drives one process call (or one particle to its emission) in a random field and compares the optical-depth decrement with the reference rate; distinct by (eta, gamma, step)"),
    "C04": ("m_emit", 3000, "each case forces one emission in a random field and compares recoil, photon and spectrum with the references; distinct by (eta, gamma, photon)"),
    "C05": ("m_emit", 20, "each case is one (sampling fraction, energy cut, lepton) configuration driven through many emissions; distinct by its parameters"),
    "C06": ("m_emit", 2000, "each case is one continuous-emission call in a random field; distinct by (eta, gamma, configuration)"),
    "C07": ("m_pair", 5000, "each case drives one photon (or a particle that must not convert) through the pair process; distinct by (energy, field, fate)"),
    "C08": ("m_pair", 5000, "each case is one optical-depth decrement or one pair of a spectrum, compared with the tables and first principles; distinct by (chi, energy)"),
    "C09": ("m_field", 2000, "each case evaluates the field and its finite-difference derivatives at a random space-time point of a random wave; distinct by (configuration, point)"),
    "C10": ("m_field", 2000, "each case measures one parameter (amplitude, focus, waist, duration, wavelength, polarisation, spread) of a random pulse; distinct by configuration"),
    "C11": ("m_source", 1000, "each case is one generated particle list or one source parameter set; distinct by drawn parameters"),
    "C12": ("m_rng", 100, "each case is one (distribution, parameters), seed or thread configuration with its draws; distinct by parameters and first draws"),
    "C13": ("m_num", 20000, "each case is one vector pair, rotation, matrix, table query or integrand; distinct by operands"),
    "C14": ("m_part", 5000, "each case is one constructed particle or one trajectory of random updates with its recorded history; distinct by parameters"),
    "C15": ("m_part", 300, "each case is one list (capacity, number of additions) followed to its destruction; distinct by (capacity, additions)"),
    "C16": ("m_deck", 300, "each case is one generated input deck (keys, spellings, notations, orders drawn at random) parsed and compared with the model of what it says; distinct by deck text"),
    "C18": ("m_hist", 300, "each case is one histogram with its fills or merges compared bin by bin with a model; distinct by axis, quantity and contents"),
    "C19": ("m_out", 30, "each case is one output file written by a random sequence of output calls and read back through HDF5; distinct by the call sequence and the data"),
    "C26": ("m_units", 500, "each case is one unit system name, conversion or unit-field trajectory; distinct by operands"),
}


def plain(c):
    exe, minimum, rule = MON[c.prop]
    b = c.build([exe])
    c.monitor(b + "/" + exe)
    return c.finish(rule, minimum=minimum)


def c17(c):
    """twice: the plain build (crashes, hangs, exit codes, messages) and one with
    AddressSanitizer, UBSan and LeakSanitizer (out of bounds, leaks)"""
    b = c.build(["m_deck"])
    c.monitor(b + "/m_deck")
    s = c.build(["m_deck"], "san", SAN)
    c.monitor(s + "/m_deck", env=c.env(ASAN_OPTIONS="detect_leaks=1:exitcode=99:abort_on_error=0", UBSAN_OPTIONS="print_stacktrace=1:halt_on_error=1"), scale=0.3, seed=c.seed + 1000, label="m_deck-sanitized")
    return c.finish("each case is one deck (mutated, truncated, random bytes, or a structured malformation) parsed in a child process whose end (parameters, exit status, message, crash, leak) is judged; distinct by the bytes", minimum=500)


SAN = "-g -O1 -fno-omit-frame-pointer -fsanitize=address,undefined -fno-sanitize-recover=all"


def run(c):
    if c.prop == "C17":
        return c17(c)
    if c.prop in MON:
        return plain(c)
    return importlib.import_module("check_" + c.prop.lower()).run(c)
