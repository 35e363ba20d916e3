// C29: every value object of the API starts empty, holds exactly what it was given, and its copies are independent of it.
#include "gen_pe.h"
#include "pe_bliss_resources.h"
using namespace ref;
typedef std::vector<Str> Mo;                                  // what the getters of an object must return
template<class V> static Str num_of(V v) { return std::to_string((u64)v); }
static Str bit(bool b) { return b ? "yes" : "no"; }

// One class of the API: its getters with what they return for a new object, and its operations
template<class T> struct Cls
{
    const char* name; std::vector<Str> fields; Mo init; std::vector<std::function<Str(T&)>> gets;
    struct Op { Str name; std::function<void(T&, Mo&, Gen&)> f; }; std::vector<Op> ops;
    explicit Cls(const char* n) : name(n) {}
    size_t get(const Str& n, std::function<Str(T&)> g, const Str& initial) { fields.push_back(n); gets.push_back(g); init.push_back(initial); return fields.size() - 1; }
    void op(const Str& n, std::function<void(T&, Mo&, Gen&)> f) { ops.push_back({n, f}); }
    template<class V> size_t rd(const Str& n, V (T::*g)() const, V initial = V()) { return get(n, [g](T& x) { return num_of((x.*g)()); }, num_of(initial)); }
    template<class V> size_t num(const Str& n, void (T::*s)(V), V (T::*g)() const, V initial = V())
    {
        size_t i = rd(n, g, initial); op("set " + n, [s, i](T& x, Mo& m, Gen& gen) { V v = (V)gen.edge(0, sizeof(V) == 8 ? ~0ull : (1ull << (8 * sizeof(V))) - 1); (x.*s)(v); m[i] = num_of(v); }); return i;
    }
    size_t rstr(const Str& n, const Str& (T::*g)() const) { return get(n, [g](T& x) { return (x.*g)(); }, Str()); }
    size_t str(const Str& n, void (T::*s)(const Str&), const Str& (T::*g)() const, std::function<void(Mo&, const Str&)> also = nullptr)
    {
        size_t i = rstr(n, g); op("set " + n, [s, i, also](T& x, Mo& m, Gen& gen) { Str v = gen.chance(1, 4) ? Str() : gen.bytes((size_t)gen.small(60)); (x.*s)(v); m[i] = v; if(also) also(m, v); }); return i;
    }
};
template<class T> static void check(const Cls<T>& c, T& x, const Mo& m, const Str& after)
{
    for(size_t i = 0; i < c.gets.size(); ++i) { Str v = c.gets[i](x); CHECK(v == m[i], "value.field", c.name << ": after " << after << " " << c.fields[i] << " is " << hex(v, 80) << " instead of " << hex(m[i], 80) << " (" << v.substr(0, 80) << " / " << m[i].substr(0, 80) << ")"); }
}
template<class T> static void history(Gen& g, const Cls<T>& c)
{
    g.note(c.name); std::vector<T> v; std::vector<Mo> m; v.reserve(8); v.emplace_back(); m.push_back(c.init); check(c, v[0], m[0], "its creation"); unsigned n = (unsigned)g.range(1, 20);
    for(unsigned k = 0; k < n; ++k)
    {
        size_t i = (size_t)g.below(v.size()), j = (size_t)g.below(v.size()); std::ostringstream d; d << "#" << k << " object " << i << ": ";
        switch(g.weighted({8, 1, 1, 1, v.size() < 6 ? 1u : 0u}))
        {
        case 0: { if(c.ops.empty()) break; auto& o = c.ops[(size_t)g.below(c.ops.size())]; d << o.name; o.f(v[i], m[i], g); break; }
        case 1: { d << "assigned from " << j; T& src = v[j]; v[i] = src; m[i] = Mo(m[j]); break; }
        case 2: { d << "swapped with " << j; if(i != j) { std::swap(v[i], v[j]); std::swap(m[i], m[j]); } break; }
        case 3: { d << "destroyed and made again"; v[i] = T(); m[i] = c.init; break; }
        default: { d << "copied"; T copy(v[i]); v.push_back(copy); m.push_back(m[i]); break; }
        }
        g.note(d.str()); for(size_t q = 0; q < v.size(); ++q) check(c, v[q], m[q], d.str() + " object " + std::to_string(q)); g.nontrivial();
    }
    g.label(c.name);
}
// lists are shown as their elements in order
template<class L> static Str list_of(const L& l) { Str r; for(auto& x : l) r += num_of(x) + ","; return r; }

#define NUM(c, cls, f, V) c.num<V>(#f, &cls::set_##f, &cls::get_##f)
#define STR(c, cls, f) c.str(#f, &cls::set_##f, &cls::get_##f)
#define RD(c, cls, f, V) c.rd<V>(#f, &cls::get_##f)
static void imports(Gen& g)
{
    if(g.flip())
    {
        typedef imported_function T; Cls<T> c("imported_function"); size_t has = c.get("has_name", [](T& x) { return bit(x.has_name()); }, "no"); c.str("name", &T::set_name, &T::get_name, [has](Mo& m, const Str& v) { m[has] = bit(!v.empty()); });
        NUM(c, T, hint, u16); NUM(c, T, ordinal, u16); NUM(c, T, iat_va, u64); return history(g, c);
    }
    typedef import_library T; Cls<T> c("import_library"); STR(c, T, name); NUM(c, T, rva_to_iat, u32); NUM(c, T, rva_to_original_iat, u32); NUM(c, T, timestamp, u32);
    size_t l = c.get("functions", [](T& x) { Str r; for(auto& f : x.get_imported_functions()) r += num_of(f.get_ordinal()) + ","; return r; }, ""); c.op("add_import", [l](T& x, Mo& m, Gen& g) { imported_function f; u16 o = g.u16any(); f.set_ordinal(o); x.add_import(f); m[l] += num_of(o) + ","; }); c.op("clear_imports", [l](T& x, Mo& m, Gen&) { x.clear_imports(); m[l] = ""; });
    history(g, c);
}
static void import_settings(Gen& g)
{
    typedef import_rebuilder_settings T; Cls<T> c("import_rebuilder_settings"); size_t off = c.rd<u32>("offset", &T::get_offset_from_section_start); c.op("set offset", [off](T& x, Mo& m, Gen& g) { u32 v = g.u32any(); x.set_offset_from_section_start(v); m[off] = num_of(v); });
    auto flag = [&](const Str& n, bool init, bool (T::*get)() const, void (T::*set)(bool)) { size_t i = c.get(n, [get](T& x) { return bit((x.*get)()); }, bit(init)); if(set) c.op("set " + n, [set, i](T& x, Mo& m, Gen& g) { bool b = g.flip(); (x.*set)(b); m[i] = bit(b); }); return i; };
    flag("build_original_iat", true, &T::build_original_iat, &T::build_original_iat); flag("fill_missing_original_iats", false, &T::fill_missing_original_iats, &T::fill_missing_original_iats); size_t hdr = flag("auto_set_to_pe_headers", true, &T::auto_set_to_pe_headers, &T::auto_set_to_pe_headers); size_t zero = flag("zero_directory_entry_iat", false, &T::zero_directory_entry_iat, &T::zero_directory_entry_iat); flag("auto_strip", true, &T::auto_strip_last_section_enabled, &T::enable_auto_strip_last_section);
    size_t s = flag("save_iat", true, &T::save_iat_and_original_iat_rvas, nullptr), w = flag("rewrite_iat", false, &T::rewrite_iat_and_original_iat_contents, nullptr);
    c.op("save_iat_and_original_iat_rvas", [s, w](T& x, Mo& m, Gen& g) { bool e = g.flip(), r = g.flip(); x.save_iat_and_original_iat_rvas(e, r); m[s] = bit(e); m[w] = bit(e && r); });
    Mo base = c.init; c.op("construct", [=](T& x, Mo& m, Gen& g) { bool a = g.flip(), b = g.flip(); x = T(a, b); m = base; m[hdr] = bit(a); m[zero] = bit(b); }); history(g, c);
}
static void exports(Gen& g)
{
    if(g.flip())
    {
        typedef exported_function T; Cls<T> c("exported_function"); size_t has = c.get("has_name", [](T& x) { return bit(x.has_name()); }, "no"), fw = c.get("is_forwarded", [](T& x) { return bit(x.is_forwarded()); }, "no");
        c.str("name", &T::set_name, &T::get_name, [has](Mo& m, const Str& v) { m[has] = bit(!v.empty()); }); c.str("forwarded name", &T::set_forwarded_name, &T::get_forwarded_name, [fw](Mo& m, const Str& v) { m[fw] = bit(!v.empty()); }); NUM(c, T, ordinal, u16); NUM(c, T, rva, u32); NUM(c, T, name_ordinal, u16); return history(g, c);
    }
    typedef export_info T; Cls<T> c("export_info"); NUM(c, T, characteristics, u32); NUM(c, T, timestamp, u32); NUM(c, T, major_version, u16); NUM(c, T, minor_version, u16); STR(c, T, name); NUM(c, T, ordinal_base, u32); NUM(c, T, number_of_functions, u32); NUM(c, T, number_of_names, u32); NUM(c, T, rva_of_functions, u32); NUM(c, T, rva_of_names, u32); NUM(c, T, rva_of_name_ordinals, u32); history(g, c);
}
static void bound(Gen& g)
{
    if(g.flip()) { typedef bound_import_ref T; Cls<T> c("bound_import_ref"); size_t n = STR(c, T, module_name), t = NUM(c, T, timestamp, u32); c.op("construct", [=](T& x, Mo& m, Gen& g) { Str s = g.name(0, 20); u32 v = g.u32any(); x = T(s, v); m[n] = s; m[t] = num_of(v); }); return history(g, c); }
    typedef bound_import T; Cls<T> c("bound_import"); size_t n = STR(c, T, module_name), t = NUM(c, T, timestamp, u32), cnt = c.rd<size_t>("module_ref_count", &T::get_module_ref_count); size_t l = c.get("refs", [](T& x) { Str r; for(auto& y : x.get_module_ref_list()) r += num_of(y.get_timestamp()) + ","; const T& k = x; CHECK(&k.get_module_ref_list() == &x.get_module_ref_list(), "value.list", "two different lists"); return r; }, "");
    c.op("construct", [=](T& x, Mo& m, Gen& g) { Str s = g.name(0, 20); u32 v = g.u32any(); x = T(s, v); m[n] = s; m[t] = num_of(v); m[cnt] = "0"; m[l] = ""; });
    c.op("add_module_ref", [=](T& x, Mo& m, Gen& g) { u32 v = g.u32any(); if(g.flip()) x.add_module_ref(bound_import_ref("r", v)); else x.get_module_ref_list().push_back(bound_import_ref("r", v)); m[l] += num_of(v) + ","; m[cnt] = num_of(x.get_module_ref_list().size()); }); c.op("clear_module_refs", [=](T& x, Mo& m, Gen&) { x.clear_module_refs(); m[l] = ""; m[cnt] = "0"; }); history(g, c);
}
static void relocations(Gen& g)
{
    if(g.flip())
    {
        typedef relocation_entry T; Cls<T> c("relocation_entry"); size_t r = c.rd<u16>("rva", &T::get_rva), t = c.rd<u16>("type", &T::get_type), it = c.rd<u16>("item", &T::get_item);
        auto put = [=](Mo& m, u16 rv, u16 ty) { m[r] = num_of(rv); m[t] = num_of(ty); m[it] = num_of((u16)(rv | ty << 12)); };
        c.op("set rva", [=](T& x, Mo& m, Gen& g) { u16 v = (u16)g.edge(0, 0xfff); x.set_rva(v); put(m, v, (u16)atoi(m[t].c_str())); }); c.op("set type", [=](T& x, Mo& m, Gen& g) { u16 v = (u16)g.below(16); x.set_type(v); put(m, (u16)atoi(m[r].c_str()), v); });
        c.op("set item", [=](T& x, Mo& m, Gen& g) { u16 v = g.u16any(); x.set_item(v); put(m, v & 0xfff, v >> 12); }); c.op("from item", [=](T& x, Mo& m, Gen& g) { u16 v = g.u16any(); x = T(v); put(m, v & 0xfff, v >> 12); }); c.op("from parts", [=](T& x, Mo& m, Gen& g) { u16 v = (u16)g.edge(0, 0xfff), y = (u16)g.below(16); x = T(v, y); put(m, v, y); }); return history(g, c);
    }
    typedef relocation_table T; Cls<T> c("relocation_table"); size_t r = NUM(c, T, rva, u32), l = c.get("relocations", [](T& x) { Str r; const T& k = x; CHECK(&k.get_relocations() == &x.get_relocations(), "value.list", "two different lists"); for(auto& y : x.get_relocations()) r += num_of(y.get_item()) + ","; return r; }, "");
    c.op("construct", [=](T& x, Mo& m, Gen& g) { u32 v = g.u32any(); x = T(v); m[r] = num_of(v); m[l] = ""; }); c.op("add_relocation", [=](T& x, Mo& m, Gen& g) { u16 v = g.u16any(); if(g.flip()) x.add_relocation(relocation_entry(v)); else x.get_relocations().push_back(relocation_entry(v)); m[l] += num_of(v) + ","; }); history(g, c);
}
static void tls(Gen& g)
{
    typedef tls_info T; Cls<T> c("tls_info"); size_t a = NUM(c, T, raw_data_start_rva, u32), e = NUM(c, T, raw_data_end_rva, u32); NUM(c, T, index_rva, u32); NUM(c, T, callbacks_rva, u32); NUM(c, T, size_of_zero_fill, u32); NUM(c, T, characteristics, u32); size_t d = STR(c, T, raw_data);
    c.op("recalc_raw_data_end_rva", [=](T& x, Mo& m, Gen&) { x.recalc_raw_data_end_rva(); m[e] = num_of((u32)(strtoul(m[a].c_str(), 0, 10) + m[d].size())); });
    size_t l = c.get("callbacks", [](T& x) { const T& k = x; CHECK(&k.get_tls_callbacks() == &x.get_tls_callbacks(), "value.list", "two different lists"); return list_of(x.get_tls_callbacks()); }, ""); c.op("add_tls_callback", [=](T& x, Mo& m, Gen& g) { u32 v = g.u32any(); if(g.flip()) x.add_tls_callback(v); else x.get_tls_callbacks().push_back(v); m[l] += num_of(v) + ","; }); c.op("clear_tls_callbacks", [=](T& x, Mo& m, Gen&) { x.clear_tls_callbacks(); m[l] = ""; }); history(g, c);
}
static void config(Gen& g)
{
    typedef image_config_info T; Cls<T> c("image_config_info");
    NUM(c, T, time_stamp, u32); NUM(c, T, major_version, u16); NUM(c, T, minor_version, u16); NUM(c, T, global_flags_clear, u32); NUM(c, T, global_flags_set, u32); NUM(c, T, critical_section_default_timeout, u32); NUM(c, T, decommit_free_block_threshold, u64); NUM(c, T, decommit_total_free_threshold, u64); NUM(c, T, lock_prefix_table_va, u64); NUM(c, T, max_allocation_size, u64); NUM(c, T, virtual_memory_threshold, u64);
    size_t cnt0 = NUM(c, T, process_affinity_mask, u64); (void)cnt0; NUM(c, T, process_heap_flags, u32); NUM(c, T, service_pack_version, u16); NUM(c, T, edit_list_va, u64); NUM(c, T, security_cookie_va, u64); NUM(c, T, se_handler_table_va, u64); size_t cnt = RD(c, T, se_handler_count, u64);
    auto lists = [&](const Str& n, std::vector<u32>& (T::*get)(), const std::vector<u32>& (T::*cget)() const, void (T::*add)(u32), void (T::*clr)()) { size_t l = c.get(n, [get, cget](T& x) { const T& k = x; CHECK(&(k.*cget)() == &(x.*get)(), "value.list", "two different lists"); return list_of((x.*get)()); }, ""); c.op("add " + n, [=](T& x, Mo& m, Gen& g) { u32 v = g.u32any(); if(g.flip()) (x.*add)(v); else (x.*get)().push_back(v); m[l] += num_of(v) + ","; }); c.op("clear " + n, [=](T& x, Mo& m, Gen&) { (x.*clr)(); m[l] = ""; }); return l; };
    size_t h = lists("se_handler_rvas", &T::get_se_handler_rvas, &T::get_se_handler_rvas, &T::add_se_handler_rva, &T::clear_se_handler_list), p = lists("lock_prefix_rvas", &T::get_lock_prefix_rvas, &T::get_lock_prefix_rvas, &T::add_lock_prefix_rva, &T::clear_lock_prefix_list);
    c.op("construct", [=](T& x, Mo& m, Gen& g)
    {
        bool w = g.flip(); Str b = g.bytes(200); Mo r; size_t at = 4; auto take = [&](size_t n) { u64 v = n == 2 ? g16(b, at) : n == 4 ? g32(b, at) : g64(b, at); at += n; r.push_back(num_of(v)); return num_of(v); }; size_t q = w ? 8 : 4;
        take(4); take(2); take(2); take(4); take(4); take(4); take(q); take(q); take(q); take(q); take(q); Str aff, heap; if(w) { take(q); take(4); } else { heap = take(4); aff = take(4); std::swap(r[r.size() - 1], r[r.size() - 2]); } take(2); at += 2; take(q); take(q); take(q); take(q);
        if(w) { pe_win::image_load_config_directory64 s; memcpy(&s, b.data(), sizeof s); x = T(s); } else { pe_win::image_load_config_directory32 s; memcpy(&s, b.data(), sizeof s); x = T(s); }
        r.push_back(""); r.push_back(""); CHECK(r.size() == m.size() && cnt + 1 == h && p == h + 1, "harness", "fields of image_config_info"); m = r;
    });
    history(g, c);
}
static void small_records(Gen& g)
{
    switch(g.below(7))
    {
    case 6: { typedef image_directory T; Cls<T> c("image_directory"); size_t r = NUM(c, T, rva, u32), s = NUM(c, T, size, u32); c.op("construct", [=](T& x, Mo& m, Gen& g) { u32 a = g.u32any(), b = g.u32any(); x = T(a, b); m[r] = num_of(a); m[s] = num_of(b); }); return history(g, c); }
    case 0: { typedef rich_data T; Cls<T> c("rich_data"); NUM(c, T, number, u32); NUM(c, T, version, u32); NUM(c, T, times, u32); return history(g, c); }
    case 1: { typedef coff_debug_info::coff_symbol T; Cls<T> c("coff_symbol"); NUM(c, T, storage_class, u32); NUM(c, T, index, u32); NUM(c, T, section_number, u32); NUM(c, T, rva, u32); NUM(c, T, type, u16); size_t f = c.get("is_file", [](T& x) { return bit(x.is_file()); }, "no"), s = c.rstr("symbol", &T::get_symbol);
        c.op("set_file_name", [=](T& x, Mo& m, Gen& g) { Str v = g.name(0, 20); x.set_file_name(v); m[s] = v; m[f] = "yes"; }); c.op("set_symbol_name", [=](T& x, Mo& m, Gen& g) { Str v = g.name(0, 20); x.set_symbol_name(v); m[s] = v; m[f] = "no"; }); return history(g, c); }
    case 2: { typedef resource_data_entry T; Cls<T> c("resource_data_entry"); size_t p = NUM(c, T, codepage, u32), d = STR(c, T, data); c.op("construct", [=](T& x, Mo& m, Gen& g) { Str s = g.bytes((size_t)g.small(300)); u32 v = g.u32any(); x = T(s, v); m[p] = num_of(v); m[d] = s; resource_data_info i(x), j(s, v); CHECK(i.get_data() == s && j.get_data() == s && i.get_codepage() == v && j.get_codepage() == v, "value.data_info", "resource_data_info"); }); return history(g, c); }
    case 3: { typedef message_table_item T; Cls<T> c("message_table_item"); size_t u = c.get("is_unicode", [](T& x) { return bit(x.is_unicode()); }, "no"), a = c.get("text", [](T& x) { if(!x.is_unicode()) return x.get_ansi_string(); Str r; for(wchar_t w : x.get_unicode_string()) r += (char)w; return r; }, "");
        c.op("set ansi", [=](T& x, Mo& m, Gen& g) { Str v = g.bytes((size_t)g.small(50)); if(g.flip()) x.set_string(v); else x = T(v); while(!v.empty() && !v.back()) v.pop_back(); m[u] = "no"; m[a] = v; }); c.op("set unicode", [=](T& x, Mo& m, Gen& g) { Str v = g.name(0, 30); std::wstring w(v.begin(), v.end()); if(g.flip()) x.set_string(w); else x = T(w); m[u] = "yes"; m[a] = v; }); return history(g, c); }
    case 4:
    {
        typedef exception_entry T; Cls<T> c("exception_entry"); RD(c, T, begin_address, u32); RD(c, T, end_address, u32); RD(c, T, unwind_info_address, u32); RD(c, T, unwind_info_version, u8); RD(c, T, flags, u8); RD(c, T, size_of_prolog, u8); RD(c, T, number_of_unwind_slots, u8); RD(c, T, frame_pointer_register_number, u8); RD(c, T, scaled_rsp_offset, u8);
        c.get("has_exception_handler", [](T& x) { return bit(x.has_exception_handler()); }, "no"); c.get("has_termination_handler", [](T& x) { return bit(x.has_termination_handler()); }, "no"); c.get("is_chaininfo", [](T& x) { return bit(x.is_chaininfo()); }, "no"); c.get("uses_frame_pointer", [](T& x) { return bit(x.uses_frame_pointer()); }, "no");
        c.op("construct", [](T& x, Mo& m, Gen& g) { u32 v[3]; for(u32& y : v) y = g.u32any(); u8 b[4]; for(u8& y : b) y = (u8)(g.flip() ? g.below(256) : 0); pe_win::image_runtime_function_entry e; e.BeginAddress = v[0]; e.EndAddress = v[1]; e.UnwindInfoAddress = v[2]; pe_win::unwind_info u; memset((void*)&u, 0, sizeof u); memcpy((void*)&u, b, 4); x = T(e, u); unsigned f = b[0] >> 3;
            m = {num_of(v[0]), num_of(v[1]), num_of(v[2]), num_of(b[0] & 7), num_of(f), num_of(b[1]), num_of(b[2]), num_of(b[3] & 15), num_of(b[3] >> 4), bit(f & 1), bit(f & 2), bit(f & 4), bit(b[3] & 15)}; });
        return history(g, c);
    }
    default:
    {
        typedef basic_dotnet_info T; Cls<T> c("basic_dotnet_info"); RD(c, T, major_runtime_version, u16); RD(c, T, minor_runtime_version, u16); RD(c, T, rva_of_metadata, u32); RD(c, T, size_of_metadata, u32); RD(c, T, flags, u32); RD(c, T, entry_point_rva_or_token, u32); RD(c, T, rva_of_resources, u32); RD(c, T, size_of_resources, u32); RD(c, T, rva_of_strong_name_signature, u32); RD(c, T, size_of_strong_name_signature, u32); RD(c, T, rva_of_code_manager_table, u32); RD(c, T, size_of_code_manager_table, u32); RD(c, T, rva_of_vtable_fixups, u32); RD(c, T, size_of_vtable_fixups, u32); RD(c, T, rva_of_export_address_table_jumps, u32); RD(c, T, size_of_export_address_table_jumps, u32); RD(c, T, rva_of_managed_native_header, u32); RD(c, T, size_of_managed_native_header, u32);
        c.get("is_native_entry_point", [](T& x) { return bit(x.is_native_entry_point()); }, "no"); c.get("is_32bit_required", [](T& x) { return bit(x.is_32bit_required()); }, "no"); c.get("is_il_library", [](T& x) { return bit(x.is_il_library()); }, "no"); c.get("is_il_only", [](T& x) { return bit(x.is_il_only()); }, "no");
        c.op("construct", [](T& x, Mo& m, Gen& g) { Str b = g.bytes(72); if(g.flip()) p32(b, 16, 1u << g.below(6)); pe_win::image_cor20_header h; CHECK_EQ(sizeof h, (size_t)72, "value.layout"); memcpy(&h, b.data(), 72); x = T(h); m.clear(); m.push_back(num_of(g16(b, 4))); m.push_back(num_of(g16(b, 6))); for(size_t at = 8; at < 72; at += 4) m.push_back(num_of(g32(b, at))); u32 f = g32(b, 16); m.push_back(bit(f & 16)); m.push_back(bit(f & 2)); m.push_back(bit(f & 4)); m.push_back(bit(f & 1)); });
        return history(g, c);
    }
    }
}
// debug entries own one of several kinds of details
static Str detail(const debug_info& x)
{
    unsigned n = 0; Str r = "none"; try { pdb_7_0_info i = x.get_advanced_debug_info<pdb_7_0_info>(); r = "pdb7 " + num_of(i.get_age()) + " " + num_of(i.get_guid().Data1) + " " + i.get_pdb_file_name(); ++n; } catch(const pe_exception&) {} try { pdb_2_0_info i = x.get_advanced_debug_info<pdb_2_0_info>(); r = "pdb2 " + num_of(i.get_age()) + " " + num_of(i.get_signature()) + " " + i.get_pdb_file_name(); ++n; } catch(const pe_exception&) {}
    try { misc_debug_info i = x.get_advanced_debug_info<misc_debug_info>(); r = "misc " + num_of(i.get_data_type()) + bit(i.is_exe_name()) + bit(i.is_unicode()) + " " + i.get_data_ansi(); ++n; } catch(const pe_exception&) {} try { coff_debug_info i = x.get_advanced_debug_info<coff_debug_info>(); r = "coff " + num_of(i.get_number_of_symbols()) + " " + num_of(i.get_lva_to_first_symbol()) + " " + num_of(i.get_number_of_line_numbers()) + " " + num_of(i.get_lva_to_first_line_number()) + " " + num_of(i.get_rva_to_first_byte_of_code()) + " " + num_of(i.get_rva_to_last_byte_of_code()) + " " + num_of(i.get_rva_to_first_byte_of_data()) + " " + num_of(i.get_rva_to_last_byte_of_data()); for(auto& s : i.get_symbols()) r += " " + s.get_symbol(); ++n; } catch(const pe_exception&) {}
    CHECK(n <= 1, "value.debug", "a debug entry has details of " << n << " kinds"); return r;
}
static void debug_entries(Gen& g)
{
    typedef debug_info T; Cls<T> c("debug_info"); RD(c, T, characteristics, u32); RD(c, T, time_stamp, u32); RD(c, T, major_version, u32); RD(c, T, minor_version, u32); RD(c, T, type_raw, u32); RD(c, T, size_of_data, u32); RD(c, T, rva_of_raw_data, u32); RD(c, T, pointer_to_raw_data, u32);
    size_t t = c.get("advanced type", [](T& x) { return num_of(x.get_advanced_info_type()); }, "0"), d = c.get("details", [](T& x) { return detail(x); }, "none");
    c.op("construct", [=](T& x, Mo& m, Gen& g) { Str b = g.bytes(28); p32(b, 12, (u32)g.below(20)); pe_win::image_debug_directory e; memcpy(&e, b.data(), 28); x = T(e); m = {num_of(g32(b, 0)), num_of(g32(b, 4)), num_of(g16(b, 8)), num_of(g16(b, 10)), num_of(g32(b, 12)), num_of(g32(b, 16)), num_of(g32(b, 20)), num_of(g32(b, 24)), "0", "none"}; });
    c.op("pdb 7.0", [=](T& x, Mo& m, Gen& g) { Str b = g.bytes(24), n = g.name(0, 30); b += n + Str(1, 0); pdb_7_0_info i; bool e = g.chance(1, 4); if(!e) i = pdb_7_0_info((const pe_win::CV_INFO_PDB70*)b.data()); x.set_advanced_debug_info(i); m[t] = "1"; m[d] = e ? "pdb7 0 0 " : "pdb7 " + num_of(g32(b, 20)) + " " + num_of(g32(b, 4)) + " " + n; });
    c.op("pdb 2.0", [=](T& x, Mo& m, Gen& g) { Str b = g.bytes(16), n = g.name(0, 30); b += n + Str(1, 0); pdb_2_0_info i; bool e = g.chance(1, 4); if(!e) i = pdb_2_0_info((const pe_win::CV_INFO_PDB20*)b.data()); x.set_advanced_debug_info(i); m[t] = "2"; m[d] = e ? "pdb2 0 0 " : "pdb2 " + num_of(g32(b, 12)) + " " + num_of(g32(b, 8)) + " " + n; });
    c.op("misc", [=](T& x, Mo& m, Gen& g) { Str n = g.name(4, 30), b; u32 ty = (u32)g.below(3); p32(b, 0, ty); p32(b, 4, 12 + (u32)n.size()); p32(b, 8, 0); b += n; b += Str(4, 0); misc_debug_info i; bool e = g.chance(1, 4); if(!e) i = misc_debug_info((const pe_win::image_debug_misc*)b.data()); x.set_advanced_debug_info(i); m[t] = "3"; m[d] = e ? "misc 0nono " : "misc " + num_of(ty) + bit(ty == 1) + "no " + n; });
    c.op("coff", [=](T& x, Mo& m, Gen& g) { Str b = g.bytes(32); coff_debug_info i; bool e = g.chance(1, 4); Str r = "coff"; if(!e) i = coff_debug_info((const pe_win::image_coff_symbols_header*)b.data()); for(int k = 0; k < 8; ++k) r += " " + num_of(e ? 0 : g32(b, 4 * k)); for(size_t n = (size_t)g.small(3); n; --n) { coff_debug_info::coff_symbol s; Str nm = g.name(1, 9); s.set_symbol_name(nm); i.add_symbol(s); r += " " + nm; } x.set_advanced_debug_info(i); m[t] = "4"; m[d] = r; });
    c.op("type without details", [=](T& x, Mo& m, Gen& g) { unsigned k = (unsigned)g.below(8); x.set_advanced_info_type((debug_info::advanced_info_type)k); m[t] = num_of(k >= 5 ? k : 0); m[d] = "none"; }); history(g, c);
}
// a section on its own: attributes, sizes and the two views of its data
static void sections(Gen& g)
{
    typedef section T; Cls<T> c("section"); size_t nm = c.get("name", [](T& x) { return x.get_name(); }, ""); size_t ch = c.num<u32>("characteristics", &T::set_characteristics, &T::get_characteristics), vs = c.num<u32>("virtual_size", &T::set_virtual_size, &T::get_virtual_size), rs = c.num<u32>("size_of_raw_data", &T::set_size_of_raw_data, &T::get_size_of_raw_data); NUM(c, T, pointer_to_raw_data, u32); NUM(c, T, virtual_address, u32);
    c.ops.clear(); static const u32 B[] = {0x40000000, 0x80000000, 0x20000000, 0x10000000, 0x02000000}; auto attr = [](const T& x, int k) { return k == 0 ? x.readable() : k == 1 ? x.writeable() : k == 2 ? x.executable() : k == 3 ? x.shared() : x.discardable(); }; size_t fl = 0; for(int k = 0; k < 5; ++k) { size_t i = c.get("attribute " + num_of(k), [=](T& x) { return bit(attr(x, k)); }, "no"); if(!k) fl = i; }
    size_t em = c.get("empty", [](T& x) { return bit(x.empty()); }, "yes"), as = c.get("aligned sizes", [](T& x) { return num_of(x.get_aligned_virtual_size(0x1000)) + " " + num_of(x.get_aligned_virtual_size(0x200)) + " " + num_of(x.get_aligned_raw_size(0x200)) + " " + num_of(x.get_aligned_raw_size(0x1000)); }, "0 0 0 0"), hd = c.get("raw header", [](T& x) { const T& k = x; CHECK(&k.get_raw_header() == &x.get_raw_header(), "value.list", "two headers"); return Str((const char*)&x.get_raw_header(), sizeof(pe_win::image_section_header)); }, Str(40, 0));
    size_t raw = c.get("data", [](T& x) { const T& k = x; return k.get_raw_data(); }, "");
    size_t va = vs + 3, ptr = vs + 2; CHECK(c.fields[va] == "virtual_address" && c.fields[ptr] == "pointer_to_raw_data", "harness", "section fields");
    auto derive = [=](Mo& m) { u64 v = strtoull(m[vs].c_str(), 0, 10), r = strtoull(m[rs].c_str(), 0, 10), b = v ? v : r; u32 cc = (u32)strtoul(m[ch].c_str(), 0, 10); for(int k = 0; k < 5; ++k) m[fl + k] = bit(cc & B[k]); m[em] = bit(m[raw].empty()); m[as] = num_of(up(b, 0x1000)) + " " + num_of(up(b, 0x200)) + " " + num_of(up(r, 0x200)) + " " + num_of(up(r, 0x1000)); Str h(40, 0); h.replace(0, m[nm].size(), m[nm]); p32(h, 8, (u32)v); p32(h, 12, (u32)strtoul(m[va].c_str(), 0, 10)); p32(h, 16, (u32)r); p32(h, 20, (u32)strtoul(m[ptr].c_str(), 0, 10)); p32(h, 36, cc); m[hd] = h; };
    c.op("set_name", [=](T& x, Mo& m, Gen& g) { Str s = g.name(0, 12); x.set_name(s); m[nm] = s.substr(0, 8); derive(m); }); c.op("set_characteristics", [=](T& x, Mo& m, Gen& g) { u32 v = g.u32any(); x.set_characteristics(v); m[ch] = num_of(v); derive(m); });
    c.op("set an attribute", [=](T& x, Mo& m, Gen& g) { unsigned k = (unsigned)g.below(5); bool b = g.flip(); T& r = k == 0 ? x.readable(b) : k == 1 ? x.writeable(b) : k == 2 ? x.executable(b) : k == 3 ? x.shared(b) : x.discardable(b); CHECK(&r == &x, "value.chain", "setting an attribute does not return the section"); u32 cc = (u32)strtoul(m[ch].c_str(), 0, 10); if(b) cc |= B[k]; else cc &= ~B[k]; m[ch] = num_of(cc); derive(m); });
    c.op("set sizes", [=](T& x, Mo& m, Gen& g) { u32 v = (u32)g.edge(0, 0x3000), r = (u32)g.edge(0, 0x3000), a = g.u32any(), p = g.u32any(); switch(g.below(4)) { case 0: x.set_virtual_size(v); m[vs] = num_of(v); break; case 1: x.set_size_of_raw_data(r); m[rs] = num_of(r); break; case 2: x.set_virtual_address(a); m[va] = num_of(a); break; default: x.set_pointer_to_raw_data(p); m[ptr] = num_of(p); } derive(m); });
    c.op("set data", [=](T& x, Mo& m, Gen& g) { Str s = g.bytes((size_t)g.edge(0, 0x1800)); if(g.flip()) x.set_raw_data(s); else x.get_raw_data() = s; m[raw] = s; derive(m); });
    c.op("map", [=](T& x, Mo& m, Gen& g) { u64 v = strtoull(m[vs].c_str(), 0, 10), r = strtoull(m[rs].c_str(), 0, 10); Str w = m[raw]; size_t n = (size_t)up(v ? v : r, 0x1000); if(w.size() < n) w.resize(n, 0); unsigned times = 1 + (unsigned)g.below(2); for(unsigned k = 0; k < times; ++k) { const T& y = x; CHECK((g.flip() ? x.get_virtual_data(0x1000) : y.get_virtual_data(0x1000)) == w, "value.virtual", "the virtual view is not the data padded with zeros to " << n); CHECK(x.empty() == m[raw].empty(), "value.virtual", "empty() of a mapped section"); } if(!m[raw].empty() && g.flip()) { size_t o = (size_t)g.below(m[raw].size()); x.get_virtual_data(0x1000)[o] = 'W'; m[raw][o] = 'W'; } if(g.flip()) { u32 z = (u32)g.edge(0, 0x3000); x.set_virtual_size(z); m[vs] = num_of(z); derive(m); w = m[raw]; n = (size_t)up(z ? z : r, 0x1000); if(w.size() < n) w.resize(n, 0); CHECK(x.get_virtual_data(0x1000) == w, "value.virtual", "after resizing, the virtual view is not the data padded with zeros to " << n); } });
    history(g, c);
}
static void version_fixed(Gen& g)
{
    typedef file_version_info T; Cls<T> c("file_version_info"); NUM(c, T, file_version_ms, u32); NUM(c, T, file_version_ls, u32); NUM(c, T, product_version_ms, u32); NUM(c, T, product_version_ls, u32); size_t f = NUM(c, T, file_flags, u32); NUM(c, T, file_os_raw, u32); NUM(c, T, file_type_raw, u32); NUM(c, T, file_subtype, u32); NUM(c, T, file_date_ms, u32); NUM(c, T, file_date_ls, u32);
    typedef void (T::*S)(bool); static const S set[] = {&T::set_debug, &T::set_prerelease, &T::set_patched, &T::set_private_build, &T::set_info_inferred, &T::set_special_build}; typedef bool (T::*Q)() const; static const Q get[] = {&T::is_debug, &T::is_prerelease, &T::is_patched, &T::is_private_build, &T::is_info_inferred, &T::is_special_build};
    c.get("flags by name", [f](T& x) { u32 v = 0; for(int k = 0; k < 6; ++k) { Q q = get[k]; if((x.*q)()) v |= 1u << k; } return num_of(v ^ (x.get_file_flags() & 63)); }, "0");
    c.op("set a flag", [f](T& x, Mo& m, Gen& g) { unsigned k = (unsigned)g.below(6); bool b = g.flip(); S s = set[k]; (x.*s)(b); u32 v = (u32)strtoul(m[f].c_str(), 0, 10); if(b) v |= 1u << k; else v &= ~(1u << k); m[f] = num_of(v); });
    c.op("construct", [](T& x, Mo& m, Gen& g) { Str b = g.bytes(52); pe_win::vs_fixedfileinfo i; CHECK_EQ(sizeof i, (size_t)52, "value.layout"); memcpy(&i, b.data(), 52); x = T(i); static const int at[] = {8, 12, 16, 20, 28, 32, 36, 40, 44, 48}; for(int k = 0; k < 10; ++k) m[k] = num_of(g32(b, at[k])); }); history(g, c);
}
//--- resource trees: nested values, copied and moved around inside themselves
struct Node; struct Dir { u32 ch = 0, ts = 0, nn = 0, ni = 0; u16 maj = 0, min = 0; std::vector<Node> kids; };
struct Node { bool named = false; u32 id = 0; std::wstring name; int kind = 0; Str data; u32 cp = 0; Dir dir; };
static void same(const resource_directory& d, const Dir& m, const Str& after);
static void same(const resource_directory_entry& e, const Node& m, const Str& after)
{
    CHECK(e.is_named() == m.named && e.get_id() == m.id && e.get_name() == m.name, "tree.entry", "after " << after << ": an entry has another name or identifier"); CHECK(e.includes_data() == (m.kind == 1), "tree.entry", "after " << after << ": includes_data()");
    const resource_data_entry* x = 0; const resource_directory* d = 0; bool a = throws_pe([&] { x = &e.get_data_entry(); }), b = throws_pe([&] { d = &e.get_resource_directory(); }); CHECK(a == (m.kind != 1) && b == (m.kind != 2), "tree.kind", "after " << after << ": data " << (a ? "refused" : "given") << ", directory " << (b ? "refused" : "given") << " by an entry of kind " << m.kind);
    if(x) CHECK(x->get_data() == m.data && x->get_codepage() == m.cp, "tree.data", "after " << after << ": data of an entry differs"); if(d) same(*d, m.dir, after);
}
static void same(const resource_directory& d, const Dir& m, const Str& after)
{
    CHECK(d.get_characteristics() == m.ch && d.get_timestamp() == m.ts && d.get_major_version() == m.maj && d.get_minor_version() == m.min && d.get_number_of_named_entries() == m.nn && d.get_number_of_id_entries() == m.ni, "tree.dir", "after " << after << ": a field of a directory differs (" << d.get_number_of_named_entries() << "+" << d.get_number_of_id_entries() << " entries counted, expected " << m.nn << "+" << m.ni << ")");
    CHECK(d.get_entry_list().size() == m.kids.size(), "tree.dir", "after " << after << ": " << d.get_entry_list().size() << " entries instead of " << m.kids.size()); for(size_t i = 0; i < m.kids.size(); ++i) same(d.get_entry_list()[i], m.kids[i], after);
}
static size_t weight(const Dir& d) { size_t n = 1; for(auto& k : d.kids) n += 1 + (k.kind == 2 ? weight(k.dir) : 0); return n; }
struct At { resource_directory* d; Dir* m; };
static At walk(Gen& g, resource_directory& d, Dir& m, bool deep) { At a{&d, &m}; for(;;) { std::vector<size_t> sub; for(size_t i = 0; i < a.m->kids.size(); ++i) if(a.m->kids[i].kind == 2) sub.push_back(i); if(sub.empty() || (!deep && g.flip())) return a; size_t i = g.pick(sub); a = At{&a.d->get_entry_list()[i].get_resource_directory(), &a.m->kids[i].dir}; deep = false; } }
static void tree(Gen& g)
{
    resource_directory root[2]; Dir m[2]; unsigned n = (unsigned)g.range(1, 25); g.note("resource_directory");
    for(unsigned k = 0; k < n; ++k)
    {
        unsigned t = (unsigned)g.below(2); At a = walk(g, root[t], m[t], false); std::ostringstream d; d << "#" << k << " tree " << t << ": "; size_t cnt = a.m->kids.size(), i = cnt ? (size_t)g.below(cnt) : 0; bool room = weight(m[0]) + weight(m[1]) < 120;
        switch(g.weighted({6, 2, 2, 2, 2, 1, 1, 2, 1, 1, 2}))
        {
        case 0:
        {   // a new entry
            if(!room) break; resource_directory_entry e; Node x; d << "add an entry"; for(unsigned q = (unsigned)g.below(3); q != ~0u; --q) { if(g.flip()) { std::wstring w; for(char ch : g.name(0, 6)) w += (wchar_t)ch; e.set_name(w); x.name = w; x.named = true; x.id = 0; } else { u32 v = (u32)g.small(9); e.set_id(v); x.id = v; x.named = false; x.name.clear(); } }
            unsigned kind = (unsigned)g.below(3); if(kind == 1) { Str b = g.bytes((size_t)g.small(20)); u32 cp = g.u32any(); e.add_data_entry(resource_data_entry(b, cp)); x.kind = 1; x.data = b; x.cp = cp; } else if(kind == 2) { resource_directory y; x.kind = 2; if(g.flip()) { Str b = g.bytes(16); pe_win::image_resource_directory h; memcpy(&h, b.data(), 16); y = resource_directory(h); x.dir.ch = g32(b, 0); x.dir.ts = g32(b, 4); x.dir.maj = g16(b, 8); x.dir.min = g16(b, 10); } e.add_resource_directory(y); }
            a.d->add_resource_directory_entry(e); a.m->kids.push_back(x); ++(x.named ? a.m->nn : a.m->ni); break;
        }
        case 1: { u32 v = g.u32any(); u16 w = g.u16any(); d << "set fields"; a.d->set_characteristics(v); a.m->ch = v; a.d->set_timestamp(v + 1); a.m->ts = v + 1; a.d->set_major_version(w); a.m->maj = w; a.d->get_minor_version((u16)(w + 1)); a.m->min = (u16)(w + 1); break; }
        case 2: { if(!cnt) break; d << "entry becomes data"; Str b = g.bytes((size_t)g.small(20)); a.d->get_entry_list()[i].add_data_entry(resource_data_entry(b, 5)); Node& x = a.m->kids[i]; x.kind = 1; x.data = b; x.cp = 5; x.dir = Dir(); break; }
        case 3:
        {   // an entry gets a directory: of the other tree, its own one, or one below itself
            if(!cnt || !room) break; resource_directory_entry& e = a.d->get_entry_list()[i]; Node& x = a.m->kids[i]; At s{0, 0}; if(x.kind == 2 && g.flip()) { s = walk(g, e.get_resource_directory(), x.dir, g.flip()); d << "entry takes a directory out of itself"; g.label("aliasing"); } else { s = walk(g, root[1 - t], m[1 - t], false); d << "entry takes a directory of the other tree"; }
            Dir copy = *s.m; e.add_resource_directory(*s.d); x.kind = 2; x.dir = copy; break;
        }
        case 4:
        {   // entries assigned to entries, also from below themselves
            if(!cnt || !room) break; resource_directory_entry& e = a.d->get_entry_list()[i]; Node& x = a.m->kids[i]; bool own = x.kind == 2 && g.flip(); At s = own ? walk(g, e.get_resource_directory(), x.dir, false) : walk(g, root[1 - t], m[1 - t], false); if(s.m->kids.empty()) break;
            size_t j = (size_t)g.below(s.m->kids.size()); d << "entry assigned from another"; if(own) { d << " below itself"; g.label("aliasing"); } Node copy = s.m->kids[j]; e = s.d->get_entry_list()[j]; x = copy; break;
        }
        case 5: { if(!room) break; d << "tree assigned to the other"; root[1 - t] = root[t]; Dir copy = m[t]; m[1 - t] = copy; break; }
        case 6: { d << "tree copied and the copy kept"; resource_directory c(root[t]); root[t].clear_resource_directory_entry_list(); same(c, m[t], d.str()); root[t] = c; break; }
        case 7:
        {   // a directory becomes one of those below it
            At s = walk(g, *a.d, *a.m, true); if(s.d == a.d) break; d << "directory assigned from below itself"; g.label("aliasing"); Dir copy = *s.m; *a.d = *s.d; *a.m = copy; break;
        }
        case 8: { if(!g.chance(1, 3)) break; d << "clear"; a.d->clear_resource_directory_entry_list(); a.m->kids.clear(); a.m->nn = a.m->ni = 0; break; }
        case 9:
        {   // an entry of the list is added to the same list again
            if(!cnt || !room) break; d << "entry added again"; g.label("aliasing"); Node copy = a.m->kids[i]; a.d->add_resource_directory_entry(a.d->get_entry_list()[i]); ++(copy.named ? a.m->nn : a.m->ni); a.m->kids.push_back(copy); break;
        }
        default:
        {   // lookups find the first entry, or refuse
            u32 id = (u32)g.small(9); const Node* w = 0; for(auto& x : a.m->kids) if(!x.named && x.id == id) { w = &x; break; } const resource_directory_entry* e = 0; const resource_directory& c = *a.d; bool thr = throws_pe([&] { e = &c.entry_by_id(id); }); CHECK(thr == !w, "tree.lookup", "entry_by_id(" << id << ")" << (thr ? " refused" : " found")); if(w) CHECK(e == &c.get_entry_list()[w - a.m->kids.data()], "tree.lookup", "entry_by_id(" << id << ") is not the first entry with it");
            std::wstring nm = cnt && a.m->kids[i].named && g.flip() ? a.m->kids[i].name : std::wstring(1, (wchar_t)('a' + g.below(3))); w = 0; for(auto& x : a.m->kids) if(x.named && x.name == nm) { w = &x; break; } thr = throws_pe([&] { e = &c.entry_by_name(nm); }); CHECK(thr == !w, "tree.lookup", "entry_by_name" << (thr ? " refused" : " found")); if(w) CHECK(e == &c.get_entry_list()[w - a.m->kids.data()], "tree.lookup", "entry_by_name is not the first entry with it"); d << "lookups"; break;
        }
        }
        g.note(d.str()); for(int q = 0; q < 2; ++q) same(root[q], m[q], d.str()); g.nontrivial();
    }
    g.label("resource_directory");
}
// an image made from nothing
static void created(Gen& g)
{
    bool p64 = g.flip(), dll = g.flip(); u32 sa = 0x1000u << g.below(3); u16 sub = g.pick({(u16)2, (u16)3, (u16)1}); Pe owned(p64 ? new pe_base(pe_properties_64(), sa, dll, sub) : new pe_base(pe_properties_32(), sa, dll, sub)); pe_base& pe = *owned; g.note("created image"); g.label("created image"); g.nontrivial();
    CHECK(pe.get_image_base_64() == 0x400000 && pe.get_file_alignment() == 0x200 && pe.get_section_alignment() == sa && pe.get_size_of_headers() == 0x400 && pe.get_subsystem() == sub && pe.get_number_of_rvas_and_sizes() == 16 && pe.get_number_of_sections() == 0 && pe.get_image_sections().empty(), "created.layout", "base " << hx(pe.get_image_base_64()) << ", file alignment " << hx(pe.get_file_alignment()) << ", headers " << hx(pe.get_size_of_headers()));
    CHECK(pe.get_heap_size_reserve_64() == 0x100000 && pe.get_heap_size_commit_64() == 0x1000 && pe.get_stack_size_reserve_64() == 0x100000 && pe.get_stack_size_commit_64() == 0x1000, "created.memory", "heap " << hx(pe.get_heap_size_reserve_64()) << "/" << hx(pe.get_heap_size_commit_64()) << ", stack " << hx(pe.get_stack_size_reserve_64()) << "/" << hx(pe.get_stack_size_commit_64()));
    CHECK(pe.get_ep() == 0 && pe.get_checksum() == 0 && pe.get_time_date_stamp() == 0 && pe.get_base_of_code() == 0 && pe.get_dll_characteristics() == 0 && pe.get_characteristics() == (u16)(3 | (p64 ? 0 : 0x100) | (dll ? 0x2000 : 0)), "created.zero", "fields of a new image are not zero, characteristics " << hx(pe.get_characteristics()));
    for(u32 i = 0; i < 16; ++i) CHECK(!pe.directory_exists(i) && pe.get_directory_rva(i) == 0 && pe.get_directory_size(i) == 0, "created.dirs", "directory " << i << " of a new image"); CHECK(!pe.has_overlay() && pe.get_stub_overlay().empty() && pe.get_dos_header().e_magic == 0x5a4d && pe.get_magic() == (p64 ? 0x20b : 0x10b) && pe.get_pe_signature() == 0x4550, "created.dos", "DOS header, magic or signature of a new image");
    { const pe_win::image_dos_header& h = pe.get_dos_header(); CHECK(h.e_cparhdr == 4 && h.e_lfarlc == 64 && h.e_cp == 3 && h.e_cblp == 0x90 && h.e_maxalloc == 0xffff && h.e_sp == 0xb8 && h.e_minalloc == 0 && h.e_crlc == 0 && h.e_ip == 0 && h.e_cs == 0, "created.dos", "the DOS header of a new image"); CHECK(pe.get_machine() == (p64 ? 0x8664 : 0x14c) && pe.get_minor_os_version() == 1 && pe.get_major_os_version() == 5 && pe.get_major_subsystem_version() == 5 && pe.get_minor_subsystem_version() == 1, "created.target", "machine " << hx(pe.get_machine()) << " or system versions of a new image"); }
}
static void run(Gen& g)
{
    switch(g.weighted({2, 1, 2, 2, 2, 2, 2, 4, 3, 4, 2, 6, 1})) { case 0: return imports(g); case 1: return import_settings(g); case 2: return exports(g); case 3: return bound(g); case 4: return relocations(g); case 5: return tls(g); case 6: return config(g); case 7: return small_records(g); case 8: return debug_entries(g); case 9: return sections(g); case 10: return version_fixed(g); case 11: return tree(g); default: return created(g); }
}
const pbt::PropInfo pbt::prop_info = {"C29", "Histories of up to 25 sets, copies, assignments, swaps and constructions from file structures over the value objects of the API (imports, exports, relocations, TLS, load configuration, debug entries, sections, version information, resource trees with aliasing), and new images, against a model of every getter. Non-trivial: at least one step.", run, 100000, 3000000, 0, 0, 20};
