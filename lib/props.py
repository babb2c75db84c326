"""What each property's check runs, and which failures are its own."""

# public operations, as they appear in traces
DEQUE = {"push_back", "push_front", "pop_back", "pop_front", "push_back_n", "push_front_n",
         "pop_back_n", "pop_front_n", "front", "back", "len"}
JOIN = {"append", "prepend", "append_clone", "prepend_clone", "joins"}
CUT = {"split_off", "slice_from_start", "slice_to_end", "extract"}
INSDEL = {"insert", "remove"}
ACCESS = {"get", "index", "set", "front", "back", "len", "all"}
ITER = {"into_iter", "iter_open", "it_next", "it_back", "it_nth", "it_nth_back", "it_len", "it_rest", "it_rest_rev", "it_fork", "it_count", "it_last", "it_fold",
        "iter_close", "iter_panic", "all", "iter"}
ITERMUT = {"it_next_set", "it_back_set", "it_rest_set"}
FC = {"fc_open", "fc_new", "fc_narrowed", "fc_get", "fc_len", "fc_all", "fc_narrow", "fc_split",
      "fc_clone", "fc_panic", "fc_close", "fc"}
FM = {"fm_open", "fm_get", "fm_len", "fm_set", "fm_split", "fm_join", "fm_swap", "fm_fill", "fm_panic",
      "fm_close", "fm"}
PAR = {"par_open", "par_fill", "par_panic", "par_close", "par"}
CONC = {"conc", "conc_open", "conc_close"}
BOMB = {"bomb_sort", "bomb_dual", "bomb_from_iter", "bomb_clone"}
CTOR = {"new", "default", "single", "from_iter", "macro", "const"}

# the mixture every profile has some of: what makes trees uneven and storage shared
BG = "ctor=1,deque=2,concat=2,split=2,clone=1"

#: own: operations whose failures are this property's
#: why: failures of these kinds are this property's, whatever the operation
PROPS = {
    "C01": dict(own=DEQUE, profile="deque=14,concat=2,split=2,insdel=1,clone=1,ctor=1"),
    "C02": dict(own=JOIN, profile="ctor=2,deque=2,concat=7,split=3,clone=2,insdel=1,grow=1"),
    "C03": dict(own=CUT, profile="ctor=2,deque=2,concat=2,split=8,clone=2,insdel=1"),
    "C04": dict(own=INSDEL, profile=BG + ",insdel=10"),
    "C05": dict(own=ACCESS, why={"access"}, profile=BG + ",access=10,oob=1,insdel=1"),
    "C06": dict(own={"clone", "clone_from"}, why={"isolation"},
                profile="ctor=1,deque=4,concat=2,split=2,insdel=2,access=3,clone=6,iter=2,fm=2,rev=1,sort=1,dual=1"),
    "C07": dict(own=ITER, profile=BG + ",iter=8,access=1,insdel=1"),
    "C08": dict(own=FC, profile=BG + ",fc=8,insdel=1"),
    "C09": dict(own=FM | PAR, profile=BG + ",fm=8,par=1,insdel=1"),
    "C10": dict(own={"sort"}, profile=BG + ",sort=8,insdel=1"),
    "C11": dict(own={"dual"}, profile=BG + ",dual=8,insdel=1"),
    "C12": dict(own={"erange"}, profile=BG + ",search=10,insdel=1,dual=1"),
    "C13": dict(own=set(), why={"ownership", "memory"}, tracked=True,
                profile="ctor=2,deque=4,concat=3,split=3,insdel=3,access=2,oob=1,clone=3,iter=3,fc=1,fm=3,par=1,rev=1,sort=1,dual=1"),
    "C14": dict(own=set(), why={"shape"}, shapes=True,
                profile="ctor=1,deque=6,concat=4,split=4,insdel=4,clone=1,fm=1,iter=1"),
    "C15": dict(own={"cmp", "pcmp"}, profile=BG + ",cmp=8,insdel=2,access=1"),
    "C16": dict(own=CONC | PAR, threads=True,
                profile="ctor=1,deque=2,concat=2,split=2,clone=4,conc=3,par=3,insdel=1,iter=1,fm=1"),
    "C17": dict(own={"reverse", "reverse_range"}, profile=BG + ",rev=8,insdel=1"),
    "C18": dict(own=CTOR, profile="ctor=9,deque=2,concat=2,split=2,clone=1,access=2,insdel=1,iter=1"),
    "C19": dict(own=BOMB, profile="ctor=2,deque=2,concat=2,split=2,insdel=1,access=1,clone=2,oob=4,bomb=6,fc=1,fm=1,sort=1,dual=1",
                bombs=True),
    "C20": dict(own=set(), why={"sharing"}, tracked=True,
                profile="ctor=2,deque=4,concat=3,split=3,insdel=2,access=4,clone=4,iter=1,fc=1,fm=1,rev=1,sort=1,dual=1,cmp=1,search=1"),
    "C22": dict(own=set(), why={"height"}, heights=True,
                profile="ctor=3,grow=12,deque=3,concat=3,split=1,insdel=1,clone=2,sort=1,dual=1,fm=1"),
    "C23": dict(own=set()),
    "C21": dict(own=ITERMUT, itermut=True, profile=BG + ",iter=8,insdel=1"),
}
