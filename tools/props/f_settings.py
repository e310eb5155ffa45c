CONF, EGG, MAN, CLI = "milter/manager/milter-manager-configuration.c", "milter/manager/milter-manager-egg.c", "milter/manager/milter-manager.c", "milter/client/milter-client.c"
P = [
dict(id="C26", title="Settings read back, stay apart, and are reset, merged and passed on completely",
 statement="Every setting of every class reads back as it was set: each readable GObject property answers, in its declared type, the value set through it, each public set function of one value determines what the get or is function of the same name answers, and neither changes what another setting of the class answers (documented limits clamp; switches that depend on negotiation or the run mode are exempt). A manager's client settings are those of its configuration, both ways. Clearing a configuration (as every reload does) puts each setting back to its declared default and drops all eggs and applicable conditions. Merging an egg or applicable condition takes over every setting of the other one (those which may be unset, if they are set). A child hatched from an egg has exactly the egg's settings, and exists only if the egg has a connection specification.",
 over=["inputs", "configurations", "histories"], text="every property and setter/getter pair, any value, any earlier settings",
 why="A setting wired to the wrong field or dropped on reload, merge or hatch changes nothing until that one setting differs from its default; the tests set a few.",
 files=[CONF, EGG, MAN, CLI, "milter/manager/milter-manager-applicable-condition.c", "milter/core/milter-message-result.c", "milter/core/milter-session-result.c"],
 mech=[("property accessors", "get_property and set_property of every class in milter/"), ("public setters and getters", "milter_*_set_*, milter_*_get_*, milter_*_is_* of one value"),
       ("reset", CONF + ": milter_manager_configuration_clear"), ("merge and hatch", EGG + ": milter_manager_egg_merge, milter_manager_egg_hatch; milter/manager/milter-manager-applicable-condition.c: milter_manager_applicable_condition_merge"),
       ("delegation", MAN + ": client class functions overridden by the manager")],
 state=[("settings", "private structures of the classes", CONF)],
 observe=["values answered by getters and properties; settings of a hatched child"],
 technique="abstract interpretation of each setter with a symbolic value on symbolic earlier state, followed by every getter of the class; comparison with the symbol, the earlier answers and the declared defaults",
 note="Lists are followed for up to two elements. The Ruby configuration language on top of the setters is not analysed. Copies of strings, lists and objects count as the value itself."),
]
