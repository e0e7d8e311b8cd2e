"""Models: which programs of the specification are enumerated for a property.

Each entry runs TLC on a module of spec/ with the constants given; every program
is checked against the invariants and then executed on the code.  "ops" is the
number of steps in the quick tier, "deep" in the thorough tier.
"""
COMMON = ["Numbering", "Agreement", "Delimited"]


def M(name, module, ops, inv, deep=None, **consts):
    extra = {k: consts.pop(k) for k in ("focus", "props", "heap", "export", "texts", "share", "workers") if k in consts}
    return dict({"name": name, "module": module, "ops": ops, "deep": deep or ops, "inv": inv, "consts": consts}, **extra)


CLAUSES = ["ClauseOnce", "ClauseOrder", "Refused", "Mandatory"]
def clauses(k, ops, deep, **more):
    return M("clauses of " + k.upper(), "MCClauses", ops, CLAUSES + COMMON, deep=deep, Starts=k + "Starts", Menu=k + "Menu", Prefix_="MCPrefix", **more)


CLAUSE = [clauses("Select", 4, 5), clauses("Insert", 5, 7), clauses("Update", 5, 7), clauses("Delete", 5, 8)]
GROUP = [
    M("conditions", "MCGroup", 3, ["Grouping"] + COMMON, deep=4, Starts="AllStarts", Calls="WhereCalls"),
    M("long conditions of SELECT", "MCGroup", 5, ["Grouping"], deep=6, Starts="SelectStart", Calls="FewCalls"),
    M("long conditions of UPDATE", "MCGroup", 4, ["Grouping"], deep=5, Prefix_="UpdatePrefix", Calls="FewCalls", MaxNew=0),
    M("long conditions of DELETE", "MCGroup", 4, ["Grouping"], deep=5, Prefix_="DeletePrefix", Calls="FewCalls", MaxNew=0),
    M("left trees of conditions", "MCGroup", 1, ["Grouping"] + COMMON, Prefix_="SelectPrefix", Calls="LeftTrees", MaxNew=0),
    M("right trees of conditions", "MCGroup", 1, ["Grouping"] + COMMON, Prefix_="SelectPrefix", Calls="RightTrees", MaxNew=0),
    M("trees of different conditions", "MCGroup", 1, ["Grouping"] + COMMON, Prefix_="SelectPrefix", Calls="PairTrees", MaxNew=0),
    M("trees of four conditions", "MCGroup", 1, ["Grouping"], Prefix_="SelectPrefix", Calls="FourTrees", MaxNew=0),
    M("HAVING", "MCGroup", 4, ["Grouping"], deep=5, Starts="SelectStart", Calls="HavingCalls"),
    M("sequences of different conditions", "MCGroup", 2, ["Grouping"] + COMMON, deep=3, Prefix_="SelectPrefix", Calls="LeafCalls", MaxNew=0),
]
LOSS = [
    M("undefined conditions", "MCGroup", 4, ["Present", "NeverDropped"], deep=5, Starts="AllStarts", Calls="LossCalls"),
    M("undefined conditions of UPDATE", "MCGroup", 3, ["Present", "NeverDropped"], deep=4, Prefix_="UpdatePrefix", Calls="LossCalls", MaxNew=0),
    M("undefined conditions of DELETE", "MCGroup", 3, ["Present", "NeverDropped"], deep=4, Prefix_="DeletePrefix", Calls="LossCalls", MaxNew=0),
    M("conditions of every sort", "MCGroup", 2, ["Present", "NeverDropped"], deep=3, Prefix_="SelectPrefix", Calls="LeafCalls", MaxNew=0),
]


def literal(name, menu, head, ops=2, tail="NoTail", starts=None, prefix=None, more=COMMON, deep=None):
    consts = dict(Menu=menu, Head_=head, Tail_=tail)
    if starts:
        consts["Starts"] = starts
    if prefix:
        consts.update(Prefix_=prefix, MaxNew=0)
    return M(name, "MCLiteral", ops, ["Exact", "RefusedExactly"] + more, deep=deep, **consts)


SELECT = dict(starts="SelStart", head="SelHead")
JOINS = [literal("joins", "JoinMenu", **SELECT), literal("trees of ON conditions", "OnTreeMenu", **SELECT), literal("joins one after the other", "JoinFew", ops=3, deep=4, **SELECT),
         literal("joins repeated", "JoinAgain", ops=4, deep=5, **SELECT)]
TABLES = [literal("FROM", "FromMenu", **SELECT), literal("USING", "UsingMenu", "DelHead", 1, prefix="DelPrefix")]
COMPARE = [literal("comparisons", "CompareMenu", **SELECT), literal("composed conditions", "ComposedMenu", **SELECT)]
CONDS = [literal("any condition of SELECT", "MoreMenu", "CondHead", 1, prefix="CondPrefix"),
         literal("any condition of UPDATE", "MoreOfUpdate", "CondUpHead", 1, prefix="CondUpPrefix"),
         literal("any condition of DELETE", "MoreOfUpdate", "CondDelHead", 1, prefix="CondDelPrefix")]
LIMITS = [literal("LIMIT", "LimitMenu", **SELECT), literal("OFFSET", "OffsetMenu", **SELECT),
          literal("LIMIT from strings", "LimitStrings", **SELECT), literal("OFFSET from strings", "OffsetStrings", **SELECT)]
CONFLICT = [literal("ON CONFLICT", "ConflictMenu", "InsHead", 1, prefix="InsPrefix"),
            literal("ON CONFLICT and RETURNING", "ConflictMenu", "InsHead", 1, prefix="RetPrefix", tail="RetTail")]
ROWS = [literal("VALUES", "RowMenu", "RowHead", 1, prefix="RowPrefix")]
REPLACED = [literal("select lists replaced", "ColumnMenu", "Nothing", starts="SelStart")]
LISTS = REPLACED + [
    literal("RETURNING", "ReturnMenu", "DelHead", 1, prefix="DelPrefix"), literal("GROUP BY", "GroupMenu", **SELECT),
    literal("select lists", "ColumnMenu", "Nothing", starts="BareSelect"), literal("DISTINCT ON", "OnMenu", "Nothing", **dict(starts="SelStart")),
    literal("ORDER BY", "FirstOrders", **SELECT), literal("more ORDER BY", "MoreOrders", "OrderHead", 2, prefix="OrderPrefix", deep=3),
]
SETS = [
    M("SET", "MCSet", 1, ["LastWins", "RefusedHere"] + COMMON, Menu="SetMenu", Head_="UpdHead", Prefix_="UpdPrefix", MaxNew=0),
    M("several SET", "MCSet", 3, ["LastWins", "RefusedHere"] + COMMON, deep=4, Menu="SetFew", Head_="UpdHead", Prefix_="UpdPrefix", MaxNew=0),
    M("SET with a list of columns", "MCSet", 4, ["ListForm", "RefusedHere"] + COMMON, deep=5, Menu="ListMenu", Head_="UpdHead", Prefix_="UpdPrefix", MaxNew=0),
]
INSERT_SET = [M("Insert.Set", "MCSet", 1, ["InsertSet", "RefusedHere"] + COMMON, Menu="SetMenu", Head_="InsHead_", Prefix_="InsPrefix_", MaxNew=0)]
DO_UPDATE = [M("DO UPDATE", "MCSet", 1, ["LastWins", "RefusedHere"] + COMMON, Menu="ConflictMenu_", Head_="OcHead", Prefix_="InsPrefix_", MaxNew=0)]


def subqueries(name, menu, prefix, ops=1, deep=None, alone=("Alone",)):
    return M(name, "MCSub", ops, ["Embedded", "InPlace", "Refusals", *alone] + COMMON, deep=deep, Menu=menu, Head_=prefix + "Head",
             Mid_="None", Prefix_=prefix + "Prefix", MaxNew=0)


SUBS = [
    subqueries("subqueries in conditions", "CondMenu", "Sel"), subqueries("CTEs of SELECT", "WithMenu", "Sel", 2),
    subqueries("CTEs and subqueries of SELECT", "MixMenu", "Sel", 2, 3), subqueries("CTEs and subqueries of UPDATE", "UpdMenu", "Upd", 2, 3),
    subqueries("subqueries of DELETE", "FewConds", "Del", 2, 3), subqueries("subqueries in VALUES", "RowMenu", "Ins"),
    subqueries("subqueries in DO UPDATE", "ConMenu", "Con"),
    subqueries("subqueries as conditions of SELECT", "ConditionMenu", "Sel", 1, 2), subqueries("subqueries as conditions of DELETE", "WhereMenu", "Del", 1, 2),
    subqueries("subqueries in the list of Using", "UseMenu", "Lst", 2, 3),
    subqueries("every clause in a subquery of SELECT", "ShapeCondMenu", "ShSel", alone=()), subqueries("every clause in a subquery of SET", "ShapeSetMenu", "ShUpd", alone=()),
    subqueries("every clause in a subquery of VALUES", "ShapeRowMenu", "ShIns", alone=()), subqueries("every clause in a subquery of DO UPDATE", "ShapeConMenu", "ShCon", alone=()),
]
BRANCH = [M("derivations of " + k.upper(), "MCBranch", q, [], deep=d, Prefix_=k + "Prefix", Calls=k + "Calls", MaxNew=0, Branching=frm,
            export="ExportShots", props=["Persistent"])
          for k, q, d, frm in (("Select", 2, 2, (7, 1)), ("Update", 2, 2, (3, 1)), ("List", 2, 3, 1), ("Insert", 2, 3, 1), ("Delete", 3, 4, 1))]
BRANCH += [M("derivations of " + name, "MCBranch", q, [], deep=d, Prefix_=k + "Prefix", Calls=c + "Calls", MaxNew=0, Branching=frm, export="ExportShots", props=["Persistent"])
           for name, k, c, q, d, frm in (("lists of SELECT", "Slice", "Slice", 2, 3, 1), ("lists of INSERT", "SliceIns", "SliceIns", 2, 3, 1),
                                         ("lists of UPDATE", "SliceUpd", "SliceUpd", 2, 3, 1),
                                         ("conditions of SELECT", "Where", "Where", 2, 2, (2, 1)), ("conditions of UPDATE", "WhereUpd", "Where", 2, 2, (3, 2)),
                                         ("conditions of DELETE", "WhereDel", "Where", 2, 2, 2))]
SHARE = [M("goroutines that share " + name, "MCShare", 2, [], deep=deep, Prefix_=k + "Prefix", Calls=k + "Calls", MaxNew=0, Branching=frm, export="ExportShared",
           share=True, workers=1)
         for name, k, frm, deep in (("a SELECT", "Select", (10, 7), 3), ("an UPDATE", "Update", (7, 5), 3), ("a list of columns", "List", 5, 3),
                                    ("an INSERT", "Insert", 2, 3), ("a complete INSERT", "Rich", 5, 3), ("a DELETE", "Delete", 2, 3),
                                    ("subqueries", "Subquery", (15, 14), 2), ("a set of pairs", "Sorted", (5, 4), 2))]
BAD = [M("arguments of " + k.upper(), "MCBad", 1, ["Accepts", "Effect"] + COMMON, Menu=k + "Menu", Prefix_=x, MaxNew=0)
       for k, x in (("Select", "SelectPrefix"), ("Insert", "InsertPrefix"), ("Into", "BareInsert"), ("Update", "UpdatePrefix"), ("List", "ListPrefix"),
                    ("Delete", "DeletePrefix"), ("From", "BareDelete"))]
BAD += [M("two arguments of " + k.upper(), "MCBad", 1, ["Accepts", "Effect"] + COMMON, Menu=k + "Two", Prefix_=k + "Prefix", MaxNew=0)
        for k in ("Select", "Insert", "Update", "List", "Delete")]
BIND = [M("values of " + k.upper(), "MCBind", q, ["BoundInOrder", "Numbering", "Agreement", "Blind", "Delimited"], deep=d, Menu=k + "Menu",
          Prefix_=k + "Prefix", MaxNew=0) for k, q, d in (("Select", 2, 3), ("Update", 2, 3), ("List", 2, 4), ("Insert", 3, 4), ("Delete", 2, 4))]
BIND += [M("hundreds of values " + w, "MCBind", 1, ["BoundInOrder"], Menu=m, Prefix_=x, MaxNew=0)
         for w, m, x in (("inserted", "ManyInserted", "InsertPrefix"), ("compared", "ManyCompared", "ManyDelPrefix"))]
COMMENT = [M("comments of " + k.upper(), "MCComment", q, ["AtTheEnd"] + COMMON, deep=q + 1, Prefix_=k + "Prefix", Calls=k + "Calls", MaxNew=0)
           for k, q in (("Select", 2), ("Insert", 3), ("Update", 3), ("Delete", 3))]
PLACES = {"Where": ("a comparison", "Sel"), "Between": ("BETWEEN", "Sel"), "InList": ("IN", "Sel"), "Row1": ("VALUES", "Ins"), "Row2": ("rows", "Ins"),
          "Pair_": ("SET", "Upd"), "Use": ("Using", "Use"), "Insets": ("Insert.Set", "Ins")}


def values(entries, *places, inv=("RefusedHere", "Bound", "Literal")):
    return [M("%s in %s" % (entries.lower(), PLACES[p][0]), "MCVals", 1, list(inv) + COMMON, Entries=entries, Place=p, Prefix_=PLACES[p][1] + "Prefix",
              MaxNew=0) for p in places]


LITERALS = values("Literals", "Where", "Row2") + values("Strings", "Row1", inv=("RefusedHere", "Bound", "Literal", "Faithful"))
CONVERSIONS = values("Conversions", *PLACES)
NAMES = [M("names as %s" % p, "MCNames", 1, ["ReadsBack"] + COMMON, Place=p, Depth=(3 if p in ("Column", "Cond", "From") else 2, 3), Prefix_=x + "Prefix", MaxNew=0)
         for p, x in (("Column", "Sel"), ("ColString", "Sel"), ("Alias", "Sel"), ("From", "Sel"), ("TabAlias", "Sel"), ("OnlyTab", "Sel"), ("Cond", "Sel"),
                      ("Operand", "Sel"), ("OnLeft", "Sel"), ("OnRight", "Sel"), ("JoinTab", "Sel"), ("GroupBy", "Sel"), ("DistinctOn", "Sel"), ("Using", "Del"),
                      ("Returning", "Del"), ("InsCols", "Ins"), ("Target", "Ins"), ("SetKey", "Upd"), ("SetList", "Lst"), ("IntoTab", "New"))]
KINDS = [M("kinds and statements", "MCKinds", 3, ["KindKept", "EmptyExactly"] + COMMON, deep=4, Starts="AllStarts", Calls="AllCalls", export="ExportKinds")]
def texts(name, pieces, ops, deep):
    return M(name, "MCText", ops, ["NothingLost", "Shapes", "Maximal", "Separable"], deep=deep, Pieces=pieces, texts=True)


def joins(name, ops, deep, edits, noise, depth=1, deep_depth=2):
    return M(name, "MCJoin", ops, ["Whole", "Meant"], deep=deep, Depth=(depth, deep_depth), Edits=edits, Noise=noise, texts=True)


JOIN_TEXTS = [joins("textual joins", 4, 6, 0, "NoNoise", 3, 4), joins("texts one token away from a join", 2, 2, 1, "FewNoise", 1, 2),
              joins("joins and any other token", 1, 2, 1, "AllNoise", 1, 1)]
def parts(name, menu, ops, deep):
    return M(name, "MCParts", ops, ["Concatenated", "NothingWhenEmpty"], deep=deep, Menu=menu, texts=True)


PARTS = [parts("parts of statements", "Several", 2, 3), parts("conditions extended by And and Or", "Chains", 1, 1)]
TEXTS = [texts("texts of long pieces", "Long", 3, 4), texts("texts of characters", "Characters", 4, 5), texts("texts of words", "Words", 2, 2), texts("texts of strange characters", "Strange", 3, 4)]
MODELS = {
    "C06": SHARE,
    "C15": JOIN_TEXTS,
    "C16": TEXTS,
    "C25": KINDS,
    "C22": LITERALS,
    "C23": CONVERSIONS,
    "C21": COMMENT,
    "C01": BIND,
    "C02": BIND,
    "C03": BIND,
    "C20": BAD,
    "C04": BRANCH,
    "C05": BRANCH,
    "C18": SUBS,
    "C12": SETS + INSERT_SET + DO_UPDATE,
    "C11": TABLES + NAMES,
    "C13": ROWS + INSERT_SET,
    "C14": JOINS,
    "C17": COMPARE,
    "C19": LIMITS,
    "C24": LISTS,
    "C27": PARTS,
    "C26": CONFLICT + DO_UPDATE,
    "C07": GROUP,
    "C08": LOSS + CONDS,
    "C09": CLAUSE,
    "C10": CLAUSE + REPLACED,
}
