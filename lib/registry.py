def J(driver, spec, **kw):
    return dict(driver=driver, spec=spec, **kw)


SIM = [J("d_sim", "T_Sim")]
GEO = [J("d_geom", "T_Geom")]
PROPS = {k: dict(jobs=SIM) for k in ("C01", "C02", "C03", "C08", "C09", "C10", "C11", "C12", "C13", "C14", "C15", "C19")}
PROPS.update({k: dict(jobs=GEO) for k in ("C05", "C06", "C07")})

STE = [J("d_stencil", "T_Stencil")]
NUMB = [dict(mod="MC_Numbering", cfg_quick="MC_Numbering", cfg_thorough="MC_Numbering_t")]
PROPS["C16"] = dict(jobs=STE, models=NUMB)
PROPS["C17"] = dict(jobs=STE)

PROPS["C20"] = dict(jobs=[J("d_monitor", "T_Monitor", gen="MC_Monitor")],
                    gens=[dict(mod="MC_Monitor", cfg_quick="MC_Monitor", cfg_thorough="MC_Monitor_t")])

PROPS["C04"] = dict(jobs=[J("d_mpi", "T_Sim", kind="sim", shards=3), J("d_mpi", "T_Geom", kind="dom", shards=2)],
                    models=[dict(mod="MC_Halo", cfg_quick="MC_Halo", cfg_thorough="MC_Halo_t")])

PROPS["C18"] = dict(jobs=[J("d_file", "T_File", shards=4)],
                    models=[dict(mod="MC_Gather", cfg_quick="MC_Gather", cfg_thorough="MC_Gather_t")])

PROPS["C21"] = dict(jobs=[J("d_multi", "T_Sim", gen="MC_Interleave")],
                    gens=[dict(mod="MC_Interleave", cfg_quick="MC_Interleave", cfg_thorough="MC_Interleave_t"),
                          dict(mod="MC_Interleave", cfg_quick="MC_Interleave3", cfg_thorough="MC_Interleave3")])

PROPS["C22"] = dict(jobs=[J("d_analysis", "T_Analysis")])

PROPS["C23"] = dict(jobs=[J("d_valid", "T_Valid")])
