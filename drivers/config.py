"""Decks of input files given to the real simulation: what every object received, or that it was refused."""
import importlib
import inspect
import os
import shutil
import time
import traceback

import numpy as np

import common
from scipy.constants import m_e, m_p, e as qe

time.sleep = lambda *a: None        # (a warning about the emission angle pauses)
CONST = {"@me": m_e, "@mp": m_p, "@qe": qe}


def text(lit):
    for k, v in CONST.items():
        lit = lit.replace(k, repr(float(v)))
    return lit


def value(lit):
    return eval(text(lit), {})


def canon(v):
    """The literal the deck would have for this value."""
    if isinstance(v, np.ndarray) and v.ndim == 0:
        v = v.item()
    if isinstance(v, np.generic):
        v = v.item()
    if isinstance(v, float):
        for k, c in CONST.items():
            if v == c:
                return k
            if v == -c:
                return "-" + k
    if isinstance(v, (list, np.ndarray)):
        return repr([x.item() if isinstance(x, np.generic) else x for x in v])
    return repr(v)


def write(fn, d):
    with open(fn, "w") as f:
        for k, v in (d or {}).items():
            f.write("%s = %s\n" % (k, text(v)))


ATTRS = {
    "MP_e": ["N_mp_regen_low", "N_mp_regen", "N_mp_after_regen", "nel_mp_ref_0", "fact_split", "fact_clean", "regen_hist_cut", "charge", "mass", "Nx_reg", "Ny_reg", "Nvx_reg", "Nvy_reg", "Nvz_reg",
             "N_mp_soft_regen", "N_mp_after_soft_regen", "flag_soft_regen", "N_mp_async_regen", "N_mp_after_async_regen", "flag_async_regen", "flag_lifetime_hist"],
    "impact_man": ["Dx_hist", "scrub_en_th", "Nbin_En_hist", "En_hist_max", "cos_angle_width", "flag_lifetime_hist", "Nbin_lifetime_hist", "lifetime_hist_max", "flag_seg", "flag_En_hist_seg"],
    "impact_man.sey_mod": ["E_th", "sigmafit", "mufit", "switch_no_increase_energy", "thresh_low_energy", "secondary_angle_distribution", "Emax", "del_max", "R0", "E0", "s", "flag_costheta_delta_scale",
                           "flag_costheta_Emax_shift"],
    "phemiss.get_energy": ["e_pe_sigma", "e_pe_max"],
    "impact_man.chamb": ["x_aper", "y_aper"],
    "dynamics": ["N_sub_steps", "Dt", "B_zero_thrhld"],
    "resgasion": ["unif_frac", "P_nTorr", "sigma_ion_MBarn", "Temp_K", "E_init_ion"],
    "phemiss": ["k_pe_st", "refl_frac", "alimit", "out_radius", "resc_fac", "flag_continuous_emission", "x0_refl"],
    "pyeclsaver": ["r_center", "Dt_En_hist", "flag_cos_angle_hist", "flag_lifetime_hist", "Dt_lifetime_hist", "flag_detailed_MP_info", "dec_fac_secbeam_prof", "dec_fact_out", "save_mat_every", "stopfile",
                   "checkpoint_DT", "checkpoint_folder", "copy_main_outp_DT", "copy_main_outp_folder", "x_min_hist_det", "x_max_hist_det", "y_min_hist_det", "y_max_hist_det", "Dx_hist_det", "extract_sey",
                   "filen_main_outp", "cloud_name"],
    "": ["t_ion", "gas_ion_flag", "photoem_flag", "name"],
}
TIM = ["sigmax", "sigmay", "x_beam_pos", "y_beam_pos", "b_spac"]


def attrs(o):
    out = {}
    for path, names in ATTRS.items():
        t = o
        for a in [a for a in path.split(".") if a]:
            t = getattr(t, a, None)
        if t is None:
            continue
        for n in names:
            if hasattr(t, n):
                out[(path.split(".")[-1] or "cloud") + "_" + n] = canon(getattr(t, n))
    return out


SPIED = [("beam_and_timing", "beam_and_timing", "__init__"), ("dynamics_Boris_f2py", "pusher_Boris", "__init__"), ("dynamics_Boris_multipole", "pusher_Boris_multipole", "__init__"),
         ("dynamics_strong_B_generalized", "pusher_strong_B_generalized", "__init__"), ("dynamics_dipole", "pusher_dipole_magnet", "__init__"), ("space_charge_class", "space_charge", "__init__"),
         ("MP_system", "MP_system", "add_uniform_MP_distrib"), ("MP_system", "MP_system", "add_uniform_ele_density")]
SEEN = {}       # id of an object -> method -> what it was called with


def spy():
    """Note what the objects are made with."""
    for mod, cls, name in SPIED:
        c = getattr(importlib.import_module("PyECLOUD." + mod), cls)
        real = getattr(c, name)

        def noted(self, *a, __real=real, __name=name, **k):
            try:
                b = inspect.signature(__real).bind(self, *a, **k)
                b.apply_defaults()
                SEEN.setdefault(id(self), {})[__name] = {p: canon(v) for p, v in list(b.arguments.items())[1:] if v is None or isinstance(v, (int, float, str, list, np.ndarray, np.generic))}
            except TypeError:
                pass
            return __real(self, *a, **k)
        setattr(c, name, noted)


def args(obj, name="__init__"):
    return SEEN.get(id(obj), {}).get(name, {})


class Yields(object):
    """Counts the extractions of the yield curves instead of doing them (very long; see drivers/seymodels.py)."""

    def __enter__(self):
        imc = importlib.import_module("PyECLOUD.impact_management_class")
        self.cls, self.real, self.calls = imc.impact_management, imc.impact_management.extract_sey_curves, 0

        def few(man, n_rep, *a, **k):
            self.calls += 1
            return {}
        self.cls.extract_sey_curves = few
        return self

    def __exit__(self, *a):
        self.cls.extract_sey_curves = self.real


def one(deck, folder):
    with Yields() as ys:
        return deck_event(deck, folder, ys)


def deck_event(deck, folder, ys):
    bus = importlib.import_module("PyECLOUD.buildup_simulation")
    pbf = importlib.import_module("PyECLOUD.parse_beam_file")
    os.makedirs(folder)
    for k, fn in (("sim", "simulation_parameters.input"), ("mach", "machine_parameters.input"), ("sec", "secondary_emission_parameters.input")):
        write(os.path.join(folder, fn), deck[k])
    for j, b in enumerate(deck["beams"]):
        write(os.path.join(folder, "b%d.beam" % j if j else "beam.beam"), b)
    for j, c in enumerate(deck["clouds"]):
        write(os.path.join(folder, "c%d.cloud" % (j + 1)), c)
    SEEN.clear()
    kw = {k: value(v) for k, v in (deck["kw"] or {}).items()}
    old = os.getcwd()
    os.chdir(folder)
    ev = dict(op="refused", msg="")
    try:
        try:
            sim = bus.BuildupSimulation(pyecl_input_folder="./", ignore_kwargs=list(deck["ign"]), **kw)
        except Exception as ex:
            ev["msg"] = "%s: %s @%s" % (type(ex).__name__, str(ex)[:200], traceback.extract_tb(ex.__traceback__)[-1].filename.split("/")[-1])
            return ev
        main = sim.config_dict
        ev = dict(op="built", main={p: canon(v) for p, v in main.items()}, npass=int(sim.beamtim.N_pass_tot), tsc=canon(sim.t_sc_ON), Dtsc=canon(getattr(sim.spacech_ele, "Dt_sc", None)),
                  clouds=[], beams=[], reinterp=canon(sim.flag_reinterp_fields_at_substeps))
        for c in sim.cloud_list:
            cd = c.config_dict
            get = cd if isinstance(cd, dict) else vars(cd)
            r = dict(cfg={p: canon(v) for p, v in get.items()}, at=attrs(c), B4=-1, n=len(c.MP_e.x_mp))
            r["arg"] = dict(dyn=args(c.dynamics), fill=args(c.MP_e, "add_uniform_MP_distrib"), dens=args(c.MP_e, "add_uniform_ele_density"))
            om = getattr(c.dynamics, "omegac", None)
            if om is not None:
                r["B4"] = common.q(float(om) * m_e / qe, 1e-4)
            ev["clouds"].append(r)
        tims = [sim.beamtim] + list(sim.sec_beams_list)
        for j in range(len(deck["beams"])):
            b = pbf.beam_descr_from_fil("b%d.beam" % j if j else "beam.beam", main["betafx"], main["Dx"], main["betafy"], main["Dy"])
            r = dict(cfg={p: canon(v) for p, v in vars(b).items()}, tim={a: canon(getattr(tims[j], a)) for a in TIM if hasattr(tims[j], a)},
                     arg=args(tims[j]), sx2=common.q(float(b.sigmax)**2, 1e-12), sy2=common.q(float(b.sigmay)**2, 1e-12))
            ev["beams"].append(r)
        ev["sc"] = args(sim.spacech_ele)
        ev["tims"] = len(tims)
        ev["sey"] = ys.calls
        ev["ran"] = "ok"
        try:
            for _ in range(4):
                sim.beamtim.next_time_step()
                for sb in sim.sec_beams_list:
                    sb.next_time_step()
                sim.sim_time_step()
        except Exception as ex:
            ev["ran"] = "%s: %s @%s" % (type(ex).__name__, str(ex)[:200], traceback.extract_tb(ex.__traceback__)[-1].filename.split("/")[-1])
        return ev
    finally:
        os.chdir(old)
        shutil.rmtree(folder, ignore_errors=True)


def run(spec):
    out = []
    spy()
    np.random.seed(spec["seed"])
    with common.quiet():
        for k, d in enumerate(spec["decks"]):
            out.append(one(d, os.path.join(spec["scratch"], "deck%d" % k)))
    return out


if __name__ == "__main__":
    common.main(run)
