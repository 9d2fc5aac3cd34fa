"""FlatIndex (I01, I02, I08)."""
from .index_common import *

FLAT = "valori.indices.flat.FlatIndex"


class FlatModel(IndexModel):
    fields = ("vector_ids", "vector_cache", "_vector_count")

    def havoc(self):
        ex, o = self.ex, self.o
        o.d["vector_ids"] = ex.havoc_value(TList(TStr), "vector_ids")
        o.d["vector_cache"] = ex.havoc_value(TDict(TStr, TArr), "vector_cache")
        o.d["_vector_count"] = ex.fresh("vector_count", I)

    def fresh_id(self, s):
        """A new uuid is in no container of the index either (it was never handed out)."""
        ex = self.ex
        ids, cache = self.o.d["vector_ids"], self.o.d["vector_cache"]

    def inv(self):
        ex = self.ex
        ids, cache = self.o.d.get("vector_ids"), self.o.d.get("vector_cache")
        if not isinstance(ids, VList) or not isinstance(cache, VDict):
            raise Unsupported("representation of FlatIndex")
        s = self.S()
        ini = zb(self.init())
        k = z3.Const("k!i", Str)
        Lt = TList(TStr)
        st = ex.sym_list(ex.lst(ids), TStr) if ex.lst(ids)[0] == "c" else ex.lst(ids)
        ex.mem_axioms(Lt)
        b = ex.boxed(st)
        mem = lambda x: ex.MEM(Lt)(b, x)
        j = z3.Int("j!fi")
        yield "the id list holds exactly the live ids", "I01 I02 I08", IMP(ini, forall(k, mem(k) == s.has(k), mem(k), s.has(k)))
        yield "the id list has no duplicates", "I01 I02", IMP(ini, ex.DISTINCT(Lt)(b))
        yield "the id list is as long as the storage is large", "I01", IMP(ini, zi(st[1]) == ex.card(s.dom))
        sc = ex.sym_dict(cache, TStr, TArr)
        al, H = ex.st.d["alloc"], ex.st.d["Hvec"]
        c = lambda x: z3.Select(sc[2], x)
        d = lambda x: z3.Select(sc[1], x)
        yield "cached ids are live", "I02", IMP(ini, forall(k, IMP(d(k), s.has(k)), d(k)))
        yield "cached vectors are the stored ones", "I01 I02", IMP(ini, forall(k, IMP(d(k), z3.Select(H, c(k)) == s.v(k)), c(k)))
        yield "cached arrays are private", "I01 I02", forall(k, IMP(d(k), z3.And(z3.Not(client(c(k))), c(k) >= 0, c(k) < al)), c(k))
        yield "a closed index holds nothing", "", IMP(z3.Not(ini), z3.And(zi(st[1]) == 0, forall(k, z3.Not(d(k)), d(k))))

    def frame_state(self):
        ids = self.ex.lst(self.o.d["vector_ids"])
        return None


insert_unit("FlatIndex", FLAT, FlatModel, "I01 I02 I08")
delete_unit("FlatIndex", FLAT, FlatModel, "I01 I02 I08")
update_unit("FlatIndex", FLAT, FlatModel, "I01 I02 I08")
search_unit("FlatIndex", FLAT, FlatModel, "I01 I02 I08", exact=("I01",))
lifecycle_unit("FlatIndex", FLAT, FlatModel, "I01 I02 I08")
