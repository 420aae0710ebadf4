S="libirc/url.c"
def ob(name, d, **k):
    r = dict(name=name, file="c03_url.c", entry="H", defs=["-D" + d], enforce=[], replace=[], functions=[S + ":" + name], timeout=200, unwind=17)
    r.update(k); return r
OBS=[ob("irc_parse_url","P_PARSE"), ob("irc_create_url","P_CREATE")]
F=[S+":irc_parse_url",S+":irc_create_url"]
PROP = dict(obligations=OBS, drivers=[dict(file="d_url.c", harnesses=[
    dict(name="url_parse", mode="exhaustive", time=15, bound="eight schemes with every rest of up to 5 characters over 'a:/s'", functions=F),
    dict(name="url_random", time=4, bound="random up to 66 characters"),
    dict(name="url_roundtrip", time=5, bound="random hosts and ports")])], trusted=[], assumptions=[])
