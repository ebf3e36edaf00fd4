COMMON_ASSUMPTIONS = []
PROPS = {}
def prop(pid, *runs, **kw): PROPS[pid] = dict(runs=list(runs), **kw)
def run(entry, harness, **kw): return dict(entry=entry, harness=harness, **kw)
LONG = dict(h_long_line=run("h_long_line","wide.cpp",p=dict(styles=7,settings=0)), h_long_options=run("h_long_options","wide.cpp",p=dict(styles=7)),
  h_long_strings=run("h_long_strings","wide.cpp",p=dict(styles=7)), h_long_tree=run("h_long_tree","wide.cpp",p=dict(depth=6,tokens=2)), h_long_commands=run("h_long_commands","wide.cpp"))
def long(e, **p): r = dict(LONG["h_long_" + e]); r["p"] = {**r.get("p", {}), **p}; return r
prop("C02", long("line",styles=1), long("options",styles=1), long("strings",styles=1),
  run("h_c02_lines", "parse.cpp", p=dict(tokens=2,len=3)),
  run("h_c02_spellings", "parse.cpp", p=dict(items=3,len=3)),
  run("h_wide_flat","wide.cpp",p=dict(tokens=2,styles=1,settings=2)))
prop("C03", long("line",styles=6), long("options",styles=6), long("strings",styles=6),
  run("h_c03_slash", "parse.cpp", p=dict(tokens=2,len=3)),
  run("h_c03_dash", "parse.cpp", p=dict(tokens=2,len=3)),
  run("h_wide_tree","wide.cpp",p=dict(tokens=3,styles=6)),
  run("h_wide_flat","wide.cpp",p=dict(tokens=2,styles=6,settings=0)))
prop("C04", long("options",styles=7), run("h_c04_anyflags","parse.cpp",p=dict(flen=2,len=5)), run("h_c04_styles","parse.cpp",p=dict(len=4)),
  run("h_wide_flat","wide.cpp",p=dict(tokens=2,styles=7,settings=1)))
prop("C05", run("h_c05_flags","parse.cpp",p=dict(flen=2,len=2)), run("h_c05_commands","parse.cpp",p=dict(clen=2)), run("h_c05_set","parse.cpp",p=dict(len=4)))
prop("C06", long("options",styles=1), long("strings",styles=1), run("h_c06_flags","parse.cpp",p=dict(flen=2,len=3)), run("h_c06_set","parse.cpp",p=dict(len=2)),
  run("h_wide_flat","wide.cpp",p=dict(tokens=2,styles=1,settings=3)))
prop("C07", long("line",styles=1), run("h_c07_counts","parse.cpp",p=dict(defs=3,lo=2,extra=2,values=6)), run("h_c07_options","parse.cpp",p=dict(tokens=3)), run("h_c07_setters","parse.cpp",p=dict(setters=2)))
prop("C08", long("line",styles=2), run("h_c08_history","parse.cpp",p=dict(occ=4)), run("h_c08_constants","parse.cpp"),
  run("h_wide_flat","wide.cpp",p=dict(tokens=2,styles=3,settings=0)))
prop("C09", long("options",styles=1), long("tree"), run("h_c09_flat","parse.cpp",p=dict(tokens=3)), run("h_c09_tree","parse.cpp",p=dict(tokens=3)),
  run("h_wide_tree","wide.cpp",p=dict(tokens=3,styles=1,settings=1)),
  run("h_wide_flat","wide.cpp",p=dict(tokens=2,styles=1,settings=1)))
prop("C10", long("line",styles=4), run("h_c10_flat","parse.cpp",p=dict(before=1,after=1,len=1)), run("h_c10_free","parse.cpp",p=dict(len=2)), run("h_c10_tree","parse.cpp",p=dict(tokens=2)),
  run("h_wide_tree","wide.cpp",p=dict(tokens=2,styles=1,prefixes=5,exit=1)),
  run("h_wide_flat","wide.cpp",p=dict(tokens=2,styles=1,settings=0,exit=1)))
prop("C11", long("line",styles=1), long("strings",styles=1), run("h_c11_ignore","parse.cpp",p=dict(tokens=2,len=3)), run("h_c11_stop","parse.cpp",p=dict(after=2)), run("h_c11_tree","parse.cpp",p=dict(tokens=2)), run("h_c11_duplicates","parse.cpp",p=dict(tokens=4)),
  run("h_wide_tree","wide.cpp",p=dict(tokens=2,styles=1,prefixes=5,settings=1)),
  run("h_wide_flat","wide.cpp",p=dict(tokens=2,styles=3,settings=1)))
prop("C12", long("tree"), long("commands"), run("h_c12_tree","parse.cpp",p=dict(tokens=3)), run("h_c12_names","parse.cpp",p=dict(name=3,len=3)),
  run("h_wide_tree","wide.cpp",p=dict(tokens=3,styles=1,prefixes=3,settings=2)))
prop("C13", long("tree"), long("commands"), run("h_c13_sequence","parse.cpp",p=dict(tokens=3)), run("h_c13_nested","parse.cpp",p=dict(tokens=4)),
  run("h_wide_tree","wide.cpp",p=dict(tokens=3,styles=1,prefixes=5)))
prop("C29", run("h_c29_steps","flow.cpp",p=dict(tokens=3,len=2)), run("h_c29_words","flow.cpp",p=dict(tokens=2,styles=7),pt=dict(settings=3)), run("h_c29_move","flow.cpp",p=dict(tokens=2,len=2)))
prop("C14", run("h_c14_entries","flow.cpp",p=dict(tokens=2,len=2)), run("h_c14_words","flow.cpp",p=dict(tokens=1,styles=1,prefixes=3),pt=dict(tokens=2,styles=7,settings=3)), run("h_c14_repeat","flow.cpp",p=dict(tokens=2,len=2)), run("h_c14_no_argv","flow.cpp"), run("h_c14_settings","flow.cpp"), run("h_c14_name","flow.cpp",p=dict(len=4)))
prop("C25", run("h_c25_calls","flow.cpp",p=dict(tokens=2,len=2)), run("h_c25_words","flow.cpp",p=dict(tokens=2,styles=7)), run("h_c25_insert","flow.cpp",p=dict(inserted=2)), run("h_c25_argument_insert","flow.cpp",p=dict(tokens=2)), run("h_c25_builder","flow.cpp",p=dict(occ=3)))
prop("C01", long("line"), long("strings"), long("options"), long("tree"), run("h_c01_lines","flow.cpp",p=dict(tokens=2,len=3)), run("h_c01_messages","flow.cpp",p=dict(len=3)), run("h_c01_help","flow.cpp",p=dict(len=1)),
  run("h_wide_tree","wide.cpp",p=dict(tokens=2,styles=7,settings=3,exit=1,prefixes=5)))
prop("C23", long("tree"), run("h_c23_parse","flow.cpp",p=dict(tokens=2,len=2)), run("h_c23_standard","flow.cpp"), run("h_c23_client","flow.cpp",p=dict(len=3)))
prop("C15", run("h_c15_short","values.cpp",p=dict(len=3)), run("h_c15_limits","values.cpp",p=dict(tail=3,signs=3)), run("h_c15_default","values.cpp"), run("h_c15_lists","values.cpp",p=dict(values=3,len=1)))
prop("C16", run("h_c16_values","values.cpp",p=dict(len=3)), run("h_c16_lists","values.cpp",p=dict(values=2,len=2)), run("h_c16_default","values.cpp"))
prop("C17", run("h_c17_value","values.cpp",p=dict(len=4)), run("h_c17_list","values.cpp",p=dict(values=2,len=3)), run("h_c17_convert","values.cpp",p=dict(len=4)), run("h_c17_sources","values.cpp",p=dict(values=2,len=3)), run("h_c17_long","values.cpp",p=dict(parts=50)))
prop("C26", run("h_c26_access","values.cpp",p=dict(tokens=3,tables=6)), run("h_c26_names","values.cpp",p=dict(len=3)))
prop("C18", run("h_c18_long","text.cpp",p=dict(chars=44,widths=16),pt=dict(widths=40)), run("h_c18_layout","text.cpp",p=dict(chars=5,widths=3)), run("h_c18_rule","text.cpp",p=dict(chars=3)), run("h_c18_unbroken","text.cpp",p=dict(chars=4)), run("h_c18_width","text.cpp",p=dict(len=4)), run("h_c18_help","text.cpp",p=dict(chars=2,widths=24)))
prop("C19", run("h_c19_columns","text.cpp",p=dict(widths=48,labels=40,words=14),pt=dict(widths=80)), run("h_c19_rules","text.cpp",p=dict(letters=5,widths=8),pt=dict(letters=7)), run("h_c19_text","text.cpp",p=dict(chars=5,widths=6)), run("h_c19_markers","text.cpp",p=dict(chars=5,widths=4)), run("h_c19_bytes","text.cpp",p=dict(len=4,widths=2)), run("h_c19_long_words","text.cpp",p=dict(words=2,widths=20)), run("h_c19_help","text.cpp",p=dict(chars=2,widths=60)), run("h_c19_errors","text.cpp",p=dict(chars=3,widths=40)), run("h_c19_console","text.cpp",p=dict(console=120)))
prop("C20", run("h_c20_lines","text.cpp",p=dict(chars=3,widths=4)), run("h_c20_long","text.cpp",p=dict(words=30,lengths=8,widths=30),pt=dict(lengths=20,widths=70)), run("h_c20_content","text.cpp",p=dict(chars=5,widths=4)), run("h_c20_bytes","text.cpp",p=dict(len=4,widths=2)), run("h_c20_words","text.cpp",p=dict(words=2,widths=20)), run("h_c20_consecutive","text.cpp",p=dict(chars=3,widths=4)), run("h_c20_many","text.cpp",p=dict(chars=3)), run("h_c20_help","text.cpp",p=dict(chars=3)))
prop("C21", run("h_c21_rule","text.cpp",p=dict(letters=5)), run("h_c21_default","text.cpp",p=dict(len=4)), run("h_c21_match","text.cpp",p=dict(len=5)), run("h_c21_many","text.cpp",p=dict(rules=40)), run("h_c21_malformed","text.cpp",p=dict(chars=5)), run("h_c21_text","text.cpp",p=dict(letters=5,widths=5)))
prop("C22", run("h_c22_items","definitions.cpp",p=dict(items=2)), run("h_c22_sections","definitions.cpp",p=dict(len=1)), run("h_c22_usage","definitions.cpp"), run("h_c22_commands","definitions.cpp"), run("h_c22_texts","definitions.cpp"), run("h_c22_generated","definitions.cpp"))
prop("C24", run("h_c24_flags","definitions.cpp",p=dict(len=4,len2=3)), run("h_c24_conflicts","definitions.cpp",p=dict(len=2)), run("h_c24_settings","definitions.cpp"), run("h_c24_tree","definitions.cpp",p=dict(steps=3)), run("h_c24_counts","definitions.cpp"), run("h_c24_style","definitions.cpp"), run("h_c24_generated","definitions.cpp"))
prop("C27", run("h_c27_option","definitions.cpp"), run("h_c27_argument","definitions.cpp"), run("h_c27_command","definitions.cpp"), run("h_c27_views","definitions.cpp",p=dict(len=2)), run("h_c27_inventory","definitions.cpp"), run("h_c27_settings","definitions.cpp"), run("h_c27_copy_from","definitions.cpp"), run("h_c27_parser","definitions.cpp"), run("h_c27_moved","definitions.cpp"))
SINGLE = "single.cpp c28_lib.cpp c28_single.cpp c28_source.cpp"
prop("C28", run("h_c28_lines",SINGLE,p=dict(tokens=2,len=2)), run("h_c28_words",SINGLE,p=dict(words=2)), run("h_c28_help",SINGLE,p=dict(widths=24,chars=2)), run("h_c28_labels",SINGLE,p=dict(labels=45)), run("h_c28_values",SINGLE,p=dict(len=3)), run("h_c28_definitions",SINGLE,p=dict(len=3)),
  run("h_wide_tree","c28_swide.cpp c28_source.cpp",p=dict(tokens=2,styles=7,prefixes=3)),
  run("h_wide_flat","c28_swide.cpp c28_source.cpp",p=dict(tokens=2,styles=7,settings=0,exit=1)),
  run("h_c22_items","c28_sdefinitions.cpp c28_source.cpp",p=dict(items=1)), run("h_c22_generated","c28_sdefinitions.cpp c28_source.cpp"), run("h_c22_usage","c28_sdefinitions.cpp c28_source.cpp"), run("h_c22_texts","c28_sdefinitions.cpp c28_source.cpp"),
  run("h_c24_flags","c28_sdefinitions.cpp c28_source.cpp",p=dict(len=3,len2=2)), run("h_c27_inventory","c28_sdefinitions.cpp c28_source.cpp"), run("h_c27_settings","c28_sdefinitions.cpp c28_source.cpp"),
  run("h_c23_parse","c28_sflow.cpp c28_source.cpp",p=dict(tokens=1,len=2)), run("h_c29_move","c28_sflow.cpp c28_source.cpp",p=dict(tokens=1,len=1)),
  run("h_c06_flags","c28_sparse.cpp c28_source.cpp",p=dict(flen=2,len=1)), run("h_c07_counts","c28_sparse.cpp c28_source.cpp",p=dict(defs=2,lo=2,extra=2,values=4)), run("h_c05_flags","c28_sparse.cpp c28_source.cpp",p=dict(flen=2,len=1)),
  run("h_c08_history","c28_sparse.cpp c28_source.cpp",p=dict(occ=3)),
  run("h_c25_calls","c28_sflow.cpp c28_source.cpp",p=dict(tokens=1,len=2)),
  run("h_c23_client","c28_sflow.cpp c28_source.cpp",p=dict(len=3)),
  run("h_c15_limits","c28_svalues.cpp c28_source.cpp",p=dict(tail=2,signs=3)),
  run("h_c16_values","c28_svalues.cpp c28_source.cpp",p=dict(len=3)),
  run("h_c17_value","c28_svalues.cpp c28_source.cpp",p=dict(len=3)),
  run("h_c26_access","c28_svalues.cpp c28_source.cpp",p=dict(tokens=2,tables=2)))
# deeper bounds of the thorough tier (the exploration still stops at its time limit
# and is then reported as incomplete)
WIDE_FLAT = dict(tokens=3); WIDE_TREE = dict(tokens=4)
THOROUGH = {
  "C01": dict(h_c01_lines=dict(tokens=3), h_c01_messages=dict(len=4), h_c01_help=dict(len=2), h_wide_tree=dict(tokens=3)),
  "C02": dict(h_c02_lines=dict(len=4), h_c02_spellings=dict(items=4), h_wide_flat=WIDE_FLAT),
  "C03": dict(h_c03_slash=dict(len=4), h_c03_dash=dict(len=4), h_wide_tree=WIDE_TREE, h_wide_flat=WIDE_FLAT),
  "C04": dict(h_c04_anyflags=dict(flen=3, len=6), h_c04_styles=dict(len=5), h_wide_flat=WIDE_FLAT),
  "C05": dict(h_c05_flags=dict(flen=3, len=3, third=1), h_c05_commands=dict(clen=3), h_c05_set=dict(len=5)),
  "C06": dict(h_c06_flags=dict(flen=3, len=4), h_c06_set=dict(len=3), h_wide_flat=WIDE_FLAT),
  "C07": dict(h_c07_counts=dict(defs=4, values=7), h_c07_options=dict(tokens=4)),
  "C08": dict(h_c08_history=dict(occ=5), h_wide_flat=WIDE_FLAT),
  "C09": dict(h_c09_flat=dict(tokens=4), h_c09_tree=dict(tokens=4), h_wide_tree=WIDE_TREE, h_wide_flat=WIDE_FLAT),
  "C10": dict(h_c10_flat=dict(after=2), h_c10_free=dict(len=3), h_c10_tree=dict(tokens=3), h_wide_tree=dict(tokens=3), h_wide_flat=WIDE_FLAT),
  "C11": dict(h_c11_ignore=dict(len=4), h_c11_stop=dict(after=3), h_c11_tree=dict(tokens=3), h_wide_tree=dict(tokens=3), h_wide_flat=WIDE_FLAT),
  "C12": dict(h_c12_tree=dict(tokens=4), h_c12_names=dict(name=4, len=4), h_wide_tree=WIDE_TREE),
  "C13": dict(h_c13_sequence=dict(tokens=4), h_c13_nested=dict(tokens=5), h_wide_tree=WIDE_TREE),
  "C14": dict(h_c14_entries=dict(tokens=3), h_c14_words=dict(tokens=2, styles=7, settings=3), h_c14_repeat=dict(tokens=3)),
  "C15": dict(h_c15_short=dict(len=4), h_c15_limits=dict(tail=4), h_c15_lists=dict(values=3, len=2)),
  "C16": dict(h_c16_values=dict(len=4), h_c16_lists=dict(values=3)),
  "C17": dict(h_c17_value=dict(len=6), h_c17_list=dict(values=3), h_c17_convert=dict(len=5)),
  "C18": dict(h_c18_layout=dict(chars=6), h_c18_rule=dict(chars=4), h_c18_unbroken=dict(chars=5), h_c18_width=dict(len=5), h_c18_help=dict(chars=3)),
  "C19": dict(h_c19_text=dict(chars=6), h_c19_markers=dict(chars=6), h_c19_bytes=dict(len=5), h_c19_long_words=dict(words=3), h_c19_help=dict(chars=3), h_c19_errors=dict(chars=4)),
  "C20": dict(h_c20_content=dict(chars=6), h_c20_bytes=dict(len=5), h_c20_words=dict(words=3), h_c20_consecutive=dict(chars=4), h_c20_many=dict(chars=4), h_c20_help=dict(chars=4)),
  "C21": dict(h_c21_rule=dict(letters=6), h_c21_default=dict(len=5), h_c21_match=dict(len=6), h_c21_malformed=dict(chars=6), h_c21_text=dict(letters=6)),
  "C22": dict(h_c22_items=dict(items=3), h_c22_sections=dict(len=2)),
  "C23": dict(h_c23_parse=dict(len=3), h_c23_client=dict(len=4)),
  "C24": dict(h_c24_flags=dict(len=5), h_c24_conflicts=dict(len=3), h_c24_tree=dict(steps=4)),
  "C25": dict(h_c25_calls=dict(tokens=3), h_c25_words=dict(tokens=3), h_c25_insert=dict(inserted=3), h_c25_argument_insert=dict(tokens=3), h_c25_builder=dict(occ=4)),
  "C26": dict(h_c26_access=dict(tokens=3), h_c26_names=dict(len=4)),
  "C27": dict(h_c27_views=dict(len=3)),
  "C28": dict(h_c28_lines=dict(len=3), h_c28_words=dict(words=3), h_c28_help=dict(chars=3), h_c28_values=dict(len=4), h_c28_definitions=dict(len=4),
              h_wide_tree=dict(tokens=3), h_c08_history=dict(occ=4), h_c25_calls=dict(tokens=2), h_c23_client=dict(len=4), h_c15_limits=dict(tail=3), h_c17_value=dict(len=5)),
  "C29": dict(h_c29_steps=dict(tokens=4), h_c29_words=dict(tokens=3, settings=3), h_c29_move=dict(tokens=3)),
}
for _p, _e in THOROUGH.items():
    for _r in PROPS[_p]["runs"]:
        if _r["entry"] in _e: _r["pt"] = {**_r.get("pt", {}), **_e[_r["entry"]]}
NOT_APPLICABLE = {}
