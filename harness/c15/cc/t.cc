#include "lib.rs.h"
#include "calls.h"
extern "C" void h_00() { run([](const Data &d0) { switch (sym_choice(24, "function")) {
    case 0: { auto &d = d0; auto x0 = val<bool>(d, 0); exp_(x0); auto r = v_bool(std::move(x0)); same(r, d); logged();  } break;
    case 1: { auto &d = d0; auto x0 = val<uint8_t>(d, 0); exp_(x0); auto x1 = val<bool>(d, 1); exp_(x1); auto x2 = val<bool>(d, 2); exp_(x2); auto x3 = val<uint64_t>(d, 3); exp_(x3); auto r = w_bool(std::move(x0), std::move(x1), std::move(x2), std::move(x3)); same(r, d); logged();  } break;
    case 2: { auto d = d0.fallible(); auto x0 = val<bool>(d, 0); exp_(x0); auto x1 = val<uint16_t>(d, 1); exp_(x1); try { auto r = t_bool(std::move(x0), std::move(x1)); same(r, d); sym_assert(!d.fail, "ok"); } catch (const rust::Error &e) { sym_assert(d.fail && std::string(e.what()) == "Bad", "err"); } logged();  } break;
    case 3: { auto &d = d0; auto x0 = val<char>(d, 0); exp_(x0); auto r = v_c_char(std::move(x0)); same(r, d); logged();  } break;
    case 4: { auto &d = d0; auto x0 = val<uint8_t>(d, 0); exp_(x0); auto x1 = val<char>(d, 1); exp_(x1); auto x2 = val<char>(d, 2); exp_(x2); auto x3 = val<uint64_t>(d, 3); exp_(x3); auto r = w_c_char(std::move(x0), std::move(x1), std::move(x2), std::move(x3)); same(r, d); logged();  } break;
    case 5: { auto d = d0.fallible(); auto x0 = val<char>(d, 0); exp_(x0); auto x1 = val<uint16_t>(d, 1); exp_(x1); try { auto r = t_c_char(std::move(x0), std::move(x1)); same(r, d); sym_assert(!d.fail, "ok"); } catch (const rust::Error &e) { sym_assert(d.fail && std::string(e.what()) == "Bad", "err"); } logged();  } break;
    case 6: { auto &d = d0; auto x0 = val<uint8_t>(d, 0); exp_(x0); auto r = v_u8(std::move(x0)); same(r, d); logged();  } break;
    case 7: { auto &d = d0; auto x0 = val<uint8_t>(d, 0); exp_(x0); auto x1 = val<uint8_t>(d, 1); exp_(x1); auto x2 = val<uint8_t>(d, 2); exp_(x2); auto x3 = val<uint64_t>(d, 3); exp_(x3); auto r = w_u8(std::move(x0), std::move(x1), std::move(x2), std::move(x3)); same(r, d); logged();  } break;
    case 8: { auto d = d0.fallible(); auto x0 = val<uint8_t>(d, 0); exp_(x0); auto x1 = val<uint16_t>(d, 1); exp_(x1); try { auto r = t_u8(std::move(x0), std::move(x1)); same(r, d); sym_assert(!d.fail, "ok"); } catch (const rust::Error &e) { sym_assert(d.fail && std::string(e.what()) == "Bad", "err"); } logged();  } break;
    case 9: { auto &d = d0; auto x0 = val<uint16_t>(d, 0); exp_(x0); auto r = v_u16(std::move(x0)); same(r, d); logged();  } break;
    case 10: { auto &d = d0; auto x0 = val<uint8_t>(d, 0); exp_(x0); auto x1 = val<uint16_t>(d, 1); exp_(x1); auto x2 = val<uint16_t>(d, 2); exp_(x2); auto x3 = val<uint64_t>(d, 3); exp_(x3); auto r = w_u16(std::move(x0), std::move(x1), std::move(x2), std::move(x3)); same(r, d); logged();  } break;
    case 11: { auto d = d0.fallible(); auto x0 = val<uint16_t>(d, 0); exp_(x0); auto x1 = val<uint16_t>(d, 1); exp_(x1); try { auto r = t_u16(std::move(x0), std::move(x1)); same(r, d); sym_assert(!d.fail, "ok"); } catch (const rust::Error &e) { sym_assert(d.fail && std::string(e.what()) == "Bad", "err"); } logged();  } break;
    case 12: { auto &d = d0; auto x0 = val<uint32_t>(d, 0); exp_(x0); auto r = v_u32(std::move(x0)); same(r, d); logged();  } break;
    case 13: { auto &d = d0; auto x0 = val<uint8_t>(d, 0); exp_(x0); auto x1 = val<uint32_t>(d, 1); exp_(x1); auto x2 = val<uint32_t>(d, 2); exp_(x2); auto x3 = val<uint64_t>(d, 3); exp_(x3); auto r = w_u32(std::move(x0), std::move(x1), std::move(x2), std::move(x3)); same(r, d); logged();  } break;
    case 14: { auto d = d0.fallible(); auto x0 = val<uint32_t>(d, 0); exp_(x0); auto x1 = val<uint16_t>(d, 1); exp_(x1); try { auto r = t_u32(std::move(x0), std::move(x1)); same(r, d); sym_assert(!d.fail, "ok"); } catch (const rust::Error &e) { sym_assert(d.fail && std::string(e.what()) == "Bad", "err"); } logged();  } break;
    case 15: { auto &d = d0; auto x0 = val<uint64_t>(d, 0); exp_(x0); auto r = v_u64(std::move(x0)); same(r, d); logged();  } break;
    case 16: { auto &d = d0; auto x0 = val<uint8_t>(d, 0); exp_(x0); auto x1 = val<uint64_t>(d, 1); exp_(x1); auto x2 = val<uint64_t>(d, 2); exp_(x2); auto x3 = val<uint64_t>(d, 3); exp_(x3); auto r = w_u64(std::move(x0), std::move(x1), std::move(x2), std::move(x3)); same(r, d); logged();  } break;
    case 17: { auto d = d0.fallible(); auto x0 = val<uint64_t>(d, 0); exp_(x0); auto x1 = val<uint16_t>(d, 1); exp_(x1); try { auto r = t_u64(std::move(x0), std::move(x1)); same(r, d); sym_assert(!d.fail, "ok"); } catch (const rust::Error &e) { sym_assert(d.fail && std::string(e.what()) == "Bad", "err"); } logged();  } break;
    case 18: { auto &d = d0; auto x0 = val<size_t>(d, 0); exp_(x0); auto r = v_usize(std::move(x0)); same(r, d); logged();  } break;
    case 19: { auto &d = d0; auto x0 = val<uint8_t>(d, 0); exp_(x0); auto x1 = val<size_t>(d, 1); exp_(x1); auto x2 = val<size_t>(d, 2); exp_(x2); auto x3 = val<uint64_t>(d, 3); exp_(x3); auto r = w_usize(std::move(x0), std::move(x1), std::move(x2), std::move(x3)); same(r, d); logged();  } break;
    case 20: { auto d = d0.fallible(); auto x0 = val<size_t>(d, 0); exp_(x0); auto x1 = val<uint16_t>(d, 1); exp_(x1); try { auto r = t_usize(std::move(x0), std::move(x1)); same(r, d); sym_assert(!d.fail, "ok"); } catch (const rust::Error &e) { sym_assert(d.fail && std::string(e.what()) == "Bad", "err"); } logged();  } break;
    case 21: { auto &d = d0; auto x0 = val<int8_t>(d, 0); exp_(x0); auto r = v_i8(std::move(x0)); same(r, d); logged();  } break;
    case 22: { auto &d = d0; auto x0 = val<uint8_t>(d, 0); exp_(x0); auto x1 = val<int8_t>(d, 1); exp_(x1); auto x2 = val<int8_t>(d, 2); exp_(x2); auto x3 = val<uint64_t>(d, 3); exp_(x3); auto r = w_i8(std::move(x0), std::move(x1), std::move(x2), std::move(x3)); same(r, d); logged();  } break;
    case 23: { auto d = d0.fallible(); auto x0 = val<int8_t>(d, 0); exp_(x0); auto x1 = val<uint16_t>(d, 1); exp_(x1); try { auto r = t_i8(std::move(x0), std::move(x1)); same(r, d); sym_assert(!d.fail, "ok"); } catch (const rust::Error &e) { sym_assert(d.fail && std::string(e.what()) == "Bad", "err"); } logged();  } break;
} }); }
extern "C" void h_01() { run([](const Data &d0) { switch (sym_choice(24, "function")) {
    case 0: { auto &d = d0; auto x0 = val<int16_t>(d, 0); exp_(x0); auto r = v_i16(std::move(x0)); same(r, d); logged();  } break;
    case 1: { auto &d = d0; auto x0 = val<uint8_t>(d, 0); exp_(x0); auto x1 = val<int16_t>(d, 1); exp_(x1); auto x2 = val<int16_t>(d, 2); exp_(x2); auto x3 = val<uint64_t>(d, 3); exp_(x3); auto r = w_i16(std::move(x0), std::move(x1), std::move(x2), std::move(x3)); same(r, d); logged();  } break;
    case 2: { auto d = d0.fallible(); auto x0 = val<int16_t>(d, 0); exp_(x0); auto x1 = val<uint16_t>(d, 1); exp_(x1); try { auto r = t_i16(std::move(x0), std::move(x1)); same(r, d); sym_assert(!d.fail, "ok"); } catch (const rust::Error &e) { sym_assert(d.fail && std::string(e.what()) == "Bad", "err"); } logged();  } break;
    case 3: { auto &d = d0; auto x0 = val<int32_t>(d, 0); exp_(x0); auto r = v_i32(std::move(x0)); same(r, d); logged();  } break;
    case 4: { auto &d = d0; auto x0 = val<uint8_t>(d, 0); exp_(x0); auto x1 = val<int32_t>(d, 1); exp_(x1); auto x2 = val<int32_t>(d, 2); exp_(x2); auto x3 = val<uint64_t>(d, 3); exp_(x3); auto r = w_i32(std::move(x0), std::move(x1), std::move(x2), std::move(x3)); same(r, d); logged();  } break;
    case 5: { auto d = d0.fallible(); auto x0 = val<int32_t>(d, 0); exp_(x0); auto x1 = val<uint16_t>(d, 1); exp_(x1); try { auto r = t_i32(std::move(x0), std::move(x1)); same(r, d); sym_assert(!d.fail, "ok"); } catch (const rust::Error &e) { sym_assert(d.fail && std::string(e.what()) == "Bad", "err"); } logged();  } break;
    case 6: { auto &d = d0; auto x0 = val<int64_t>(d, 0); exp_(x0); auto r = v_i64(std::move(x0)); same(r, d); logged();  } break;
    case 7: { auto &d = d0; auto x0 = val<uint8_t>(d, 0); exp_(x0); auto x1 = val<int64_t>(d, 1); exp_(x1); auto x2 = val<int64_t>(d, 2); exp_(x2); auto x3 = val<uint64_t>(d, 3); exp_(x3); auto r = w_i64(std::move(x0), std::move(x1), std::move(x2), std::move(x3)); same(r, d); logged();  } break;
    case 8: { auto d = d0.fallible(); auto x0 = val<int64_t>(d, 0); exp_(x0); auto x1 = val<uint16_t>(d, 1); exp_(x1); try { auto r = t_i64(std::move(x0), std::move(x1)); same(r, d); sym_assert(!d.fail, "ok"); } catch (const rust::Error &e) { sym_assert(d.fail && std::string(e.what()) == "Bad", "err"); } logged();  } break;
    case 9: { auto &d = d0; auto x0 = val<rust::isize>(d, 0); exp_(x0); auto r = v_isize(std::move(x0)); same(r, d); logged();  } break;
    case 10: { auto &d = d0; auto x0 = val<uint8_t>(d, 0); exp_(x0); auto x1 = val<rust::isize>(d, 1); exp_(x1); auto x2 = val<rust::isize>(d, 2); exp_(x2); auto x3 = val<uint64_t>(d, 3); exp_(x3); auto r = w_isize(std::move(x0), std::move(x1), std::move(x2), std::move(x3)); same(r, d); logged();  } break;
    case 11: { auto d = d0.fallible(); auto x0 = val<rust::isize>(d, 0); exp_(x0); auto x1 = val<uint16_t>(d, 1); exp_(x1); try { auto r = t_isize(std::move(x0), std::move(x1)); same(r, d); sym_assert(!d.fail, "ok"); } catch (const rust::Error &e) { sym_assert(d.fail && std::string(e.what()) == "Bad", "err"); } logged();  } break;
    case 12: { auto &d = d0; auto x0 = val<float>(d, 0); exp_(x0); auto r = v_f32(std::move(x0)); same(r, d); logged();  } break;
    case 13: { auto &d = d0; auto x0 = val<uint8_t>(d, 0); exp_(x0); auto x1 = val<float>(d, 1); exp_(x1); auto x2 = val<float>(d, 2); exp_(x2); auto x3 = val<uint64_t>(d, 3); exp_(x3); auto r = w_f32(std::move(x0), std::move(x1), std::move(x2), std::move(x3)); same(r, d); logged();  } break;
    case 14: { auto d = d0.fallible(); auto x0 = val<float>(d, 0); exp_(x0); auto x1 = val<uint16_t>(d, 1); exp_(x1); try { auto r = t_f32(std::move(x0), std::move(x1)); same(r, d); sym_assert(!d.fail, "ok"); } catch (const rust::Error &e) { sym_assert(d.fail && std::string(e.what()) == "Bad", "err"); } logged();  } break;
    case 15: { auto &d = d0; auto x0 = val<double>(d, 0); exp_(x0); auto r = v_f64(std::move(x0)); same(r, d); logged();  } break;
    case 16: { auto &d = d0; auto x0 = val<uint8_t>(d, 0); exp_(x0); auto x1 = val<double>(d, 1); exp_(x1); auto x2 = val<double>(d, 2); exp_(x2); auto x3 = val<uint64_t>(d, 3); exp_(x3); auto r = w_f64(std::move(x0), std::move(x1), std::move(x2), std::move(x3)); same(r, d); logged();  } break;
    case 17: { auto d = d0.fallible(); auto x0 = val<double>(d, 0); exp_(x0); auto x1 = val<uint16_t>(d, 1); exp_(x1); try { auto r = t_f64(std::move(x0), std::move(x1)); same(r, d); sym_assert(!d.fail, "ok"); } catch (const rust::Error &e) { sym_assert(d.fail && std::string(e.what()) == "Bad", "err"); } logged();  } break;
    case 18: { auto &d = d0; auto x0 = val<rust::String>(d, 0); exp_(x0); auto r = v_string(std::move(x0)); same(r, d); logged();  } break;
    case 19: { auto &d = d0; auto x0 = val<uint8_t>(d, 0); exp_(x0); auto x1 = val<rust::String>(d, 1); exp_(x1); auto x2 = val<rust::String>(d, 2); exp_(x2); auto x3 = val<uint64_t>(d, 3); exp_(x3); auto r = w_string(std::move(x0), std::move(x1), std::move(x2), std::move(x3)); same(r, d); logged();  } break;
    case 20: { auto d = d0.fallible(); auto x0 = val<rust::String>(d, 0); exp_(x0); auto x1 = val<uint16_t>(d, 1); exp_(x1); try { auto r = t_string(std::move(x0), std::move(x1)); same(r, d); sym_assert(!d.fail, "ok"); } catch (const rust::Error &e) { sym_assert(d.fail && std::string(e.what()) == "Bad", "err"); } logged();  } break;
    case 21: { auto &d = d0; auto x0 = val<rust::Box<R>>(d, 0); exp_(x0); auto r = v_box(std::move(x0)); same(r, d); logged();  } break;
    case 22: { auto &d = d0; auto x0 = val<uint8_t>(d, 0); exp_(x0); auto x1 = val<rust::Box<R>>(d, 1); exp_(x1); auto x2 = val<rust::Box<R>>(d, 2); exp_(x2); auto x3 = val<uint64_t>(d, 3); exp_(x3); auto r = w_box(std::move(x0), std::move(x1), std::move(x2), std::move(x3)); same(r, d); logged();  } break;
    case 23: { auto d = d0.fallible(); auto x0 = val<rust::Box<R>>(d, 0); exp_(x0); auto x1 = val<uint16_t>(d, 1); exp_(x1); try { auto r = t_box(std::move(x0), std::move(x1)); same(r, d); sym_assert(!d.fail, "ok"); } catch (const rust::Error &e) { sym_assert(d.fail && std::string(e.what()) == "Bad", "err"); } logged();  } break;
} }); }
extern "C" void h_02() { run([](const Data &d0) { switch (sym_choice(24, "function")) {
    case 0: { auto &d = d0; auto x0 = val<rust::Box<N>>(d, 0); exp_(x0); auto r = v_boxn(std::move(x0)); same(r, d); logged();  } break;
    case 1: { auto &d = d0; auto x0 = val<uint8_t>(d, 0); exp_(x0); auto x1 = val<rust::Box<N>>(d, 1); exp_(x1); auto x2 = val<rust::Box<N>>(d, 2); exp_(x2); auto x3 = val<uint64_t>(d, 3); exp_(x3); auto r = w_boxn(std::move(x0), std::move(x1), std::move(x2), std::move(x3)); same(r, d); logged();  } break;
    case 2: { auto d = d0.fallible(); auto x0 = val<rust::Box<N>>(d, 0); exp_(x0); auto x1 = val<uint16_t>(d, 1); exp_(x1); try { auto r = t_boxn(std::move(x0), std::move(x1)); same(r, d); sym_assert(!d.fail, "ok"); } catch (const rust::Error &e) { sym_assert(d.fail && std::string(e.what()) == "Bad", "err"); } logged();  } break;
    case 3: { auto &d = d0; auto x0 = val<rust::Vec<uint8_t>>(d, 0); exp_(x0); auto r = v_vu8(std::move(x0)); same(r, d); logged();  } break;
    case 4: { auto &d = d0; auto x0 = val<uint8_t>(d, 0); exp_(x0); auto x1 = val<rust::Vec<uint8_t>>(d, 1); exp_(x1); auto x2 = val<rust::Vec<uint8_t>>(d, 2); exp_(x2); auto x3 = val<uint64_t>(d, 3); exp_(x3); auto r = w_vu8(std::move(x0), std::move(x1), std::move(x2), std::move(x3)); same(r, d); logged();  } break;
    case 5: { auto d = d0.fallible(); auto x0 = val<rust::Vec<uint8_t>>(d, 0); exp_(x0); auto x1 = val<uint16_t>(d, 1); exp_(x1); try { auto r = t_vu8(std::move(x0), std::move(x1)); same(r, d); sym_assert(!d.fail, "ok"); } catch (const rust::Error &e) { sym_assert(d.fail && std::string(e.what()) == "Bad", "err"); } logged();  } break;
    case 6: { auto &d = d0; auto x0 = val<rust::Vec<bool>>(d, 0); exp_(x0); auto r = v_vbool(std::move(x0)); same(r, d); logged();  } break;
    case 7: { auto &d = d0; auto x0 = val<uint8_t>(d, 0); exp_(x0); auto x1 = val<rust::Vec<bool>>(d, 1); exp_(x1); auto x2 = val<rust::Vec<bool>>(d, 2); exp_(x2); auto x3 = val<uint64_t>(d, 3); exp_(x3); auto r = w_vbool(std::move(x0), std::move(x1), std::move(x2), std::move(x3)); same(r, d); logged();  } break;
    case 8: { auto d = d0.fallible(); auto x0 = val<rust::Vec<bool>>(d, 0); exp_(x0); auto x1 = val<uint16_t>(d, 1); exp_(x1); try { auto r = t_vbool(std::move(x0), std::move(x1)); same(r, d); sym_assert(!d.fail, "ok"); } catch (const rust::Error &e) { sym_assert(d.fail && std::string(e.what()) == "Bad", "err"); } logged();  } break;
    case 9: { auto &d = d0; auto x0 = val<rust::Vec<double>>(d, 0); exp_(x0); auto r = v_vf64(std::move(x0)); same(r, d); logged();  } break;
    case 10: { auto &d = d0; auto x0 = val<uint8_t>(d, 0); exp_(x0); auto x1 = val<rust::Vec<double>>(d, 1); exp_(x1); auto x2 = val<rust::Vec<double>>(d, 2); exp_(x2); auto x3 = val<uint64_t>(d, 3); exp_(x3); auto r = w_vf64(std::move(x0), std::move(x1), std::move(x2), std::move(x3)); same(r, d); logged();  } break;
    case 11: { auto d = d0.fallible(); auto x0 = val<rust::Vec<double>>(d, 0); exp_(x0); auto x1 = val<uint16_t>(d, 1); exp_(x1); try { auto r = t_vf64(std::move(x0), std::move(x1)); same(r, d); sym_assert(!d.fail, "ok"); } catch (const rust::Error &e) { sym_assert(d.fail && std::string(e.what()) == "Bad", "err"); } logged();  } break;
    case 12: { auto &d = d0; auto x0 = val<rust::Vec<rust::String>>(d, 0); exp_(x0); auto r = v_vstring(std::move(x0)); same(r, d); logged();  } break;
    case 13: { auto &d = d0; auto x0 = val<uint8_t>(d, 0); exp_(x0); auto x1 = val<rust::Vec<rust::String>>(d, 1); exp_(x1); auto x2 = val<rust::Vec<rust::String>>(d, 2); exp_(x2); auto x3 = val<uint64_t>(d, 3); exp_(x3); auto r = w_vstring(std::move(x0), std::move(x1), std::move(x2), std::move(x3)); same(r, d); logged();  } break;
    case 14: { auto d = d0.fallible(); auto x0 = val<rust::Vec<rust::String>>(d, 0); exp_(x0); auto x1 = val<uint16_t>(d, 1); exp_(x1); try { auto r = t_vstring(std::move(x0), std::move(x1)); same(r, d); sym_assert(!d.fail, "ok"); } catch (const rust::Error &e) { sym_assert(d.fail && std::string(e.what()) == "Bad", "err"); } logged();  } break;
    case 15: { auto &d = d0; auto x0 = val<rust::Vec<P2>>(d, 0); exp_(x0); auto r = v_vp2(std::move(x0)); same(r, d); logged();  } break;
    case 16: { auto &d = d0; auto x0 = val<uint8_t>(d, 0); exp_(x0); auto x1 = val<rust::Vec<P2>>(d, 1); exp_(x1); auto x2 = val<rust::Vec<P2>>(d, 2); exp_(x2); auto x3 = val<uint64_t>(d, 3); exp_(x3); auto r = w_vp2(std::move(x0), std::move(x1), std::move(x2), std::move(x3)); same(r, d); logged();  } break;
    case 17: { auto d = d0.fallible(); auto x0 = val<rust::Vec<P2>>(d, 0); exp_(x0); auto x1 = val<uint16_t>(d, 1); exp_(x1); try { auto r = t_vp2(std::move(x0), std::move(x1)); same(r, d); sym_assert(!d.fail, "ok"); } catch (const rust::Error &e) { sym_assert(d.fail && std::string(e.what()) == "Bad", "err"); } logged();  } break;
    case 18: { auto &d = d0; auto x0 = val<rust::Vec<N>>(d, 0); exp_(x0); auto r = v_vn(std::move(x0)); same(r, d); logged();  } break;
    case 19: { auto &d = d0; auto x0 = val<uint8_t>(d, 0); exp_(x0); auto x1 = val<rust::Vec<N>>(d, 1); exp_(x1); auto x2 = val<rust::Vec<N>>(d, 2); exp_(x2); auto x3 = val<uint64_t>(d, 3); exp_(x3); auto r = w_vn(std::move(x0), std::move(x1), std::move(x2), std::move(x3)); same(r, d); logged();  } break;
    case 20: { auto d = d0.fallible(); auto x0 = val<rust::Vec<N>>(d, 0); exp_(x0); auto x1 = val<uint16_t>(d, 1); exp_(x1); try { auto r = t_vn(std::move(x0), std::move(x1)); same(r, d); sym_assert(!d.fail, "ok"); } catch (const rust::Error &e) { sym_assert(d.fail && std::string(e.what()) == "Bad", "err"); } logged();  } break;
    case 21: { auto &d = d0; auto x0 = val<rust::Vec<R>>(d, 0); exp_(x0); auto r = v_vr(std::move(x0)); same(r, d); logged();  } break;
    case 22: { auto &d = d0; auto x0 = val<uint8_t>(d, 0); exp_(x0); auto x1 = val<rust::Vec<R>>(d, 1); exp_(x1); auto x2 = val<rust::Vec<R>>(d, 2); exp_(x2); auto x3 = val<uint64_t>(d, 3); exp_(x3); auto r = w_vr(std::move(x0), std::move(x1), std::move(x2), std::move(x3)); same(r, d); logged();  } break;
    case 23: { auto d = d0.fallible(); auto x0 = val<rust::Vec<R>>(d, 0); exp_(x0); auto x1 = val<uint16_t>(d, 1); exp_(x1); try { auto r = t_vr(std::move(x0), std::move(x1)); same(r, d); sym_assert(!d.fail, "ok"); } catch (const rust::Error &e) { sym_assert(d.fail && std::string(e.what()) == "Bad", "err"); } logged();  } break;
} }); }
extern "C" void h_03() { run([](const Data &d0) { switch (sym_choice(24, "function")) {
    case 0: { auto &d = d0; auto x0 = val<std::unique_ptr<C>>(d, 0); exp_(x0); auto r = v_uobj(std::move(x0)); same(r, d); logged();  } break;
    case 1: { auto &d = d0; auto x0 = val<uint8_t>(d, 0); exp_(x0); auto x1 = val<std::unique_ptr<C>>(d, 1); exp_(x1); auto x2 = val<std::unique_ptr<C>>(d, 2); exp_(x2); auto x3 = val<uint64_t>(d, 3); exp_(x3); auto r = w_uobj(std::move(x0), std::move(x1), std::move(x2), std::move(x3)); same(r, d); logged();  } break;
    case 2: { auto d = d0.fallible(); auto x0 = val<std::unique_ptr<C>>(d, 0); exp_(x0); auto x1 = val<uint16_t>(d, 1); exp_(x1); try { auto r = t_uobj(std::move(x0), std::move(x1)); same(r, d); sym_assert(!d.fail, "ok"); } catch (const rust::Error &e) { sym_assert(d.fail && std::string(e.what()) == "Bad", "err"); } logged();  } break;
    case 3: { auto &d = d0; auto x0 = val<std::unique_ptr<std::string>>(d, 0); exp_(x0); auto r = v_ustr(std::move(x0)); same(r, d); logged();  } break;
    case 4: { auto &d = d0; auto x0 = val<uint8_t>(d, 0); exp_(x0); auto x1 = val<std::unique_ptr<std::string>>(d, 1); exp_(x1); auto x2 = val<std::unique_ptr<std::string>>(d, 2); exp_(x2); auto x3 = val<uint64_t>(d, 3); exp_(x3); auto r = w_ustr(std::move(x0), std::move(x1), std::move(x2), std::move(x3)); same(r, d); logged();  } break;
    case 5: { auto d = d0.fallible(); auto x0 = val<std::unique_ptr<std::string>>(d, 0); exp_(x0); auto x1 = val<uint16_t>(d, 1); exp_(x1); try { auto r = t_ustr(std::move(x0), std::move(x1)); same(r, d); sym_assert(!d.fail, "ok"); } catch (const rust::Error &e) { sym_assert(d.fail && std::string(e.what()) == "Bad", "err"); } logged();  } break;
    case 6: { auto &d = d0; auto x0 = val<std::unique_ptr<std::vector<uint32_t>>>(d, 0); exp_(x0); auto r = v_uvec(std::move(x0)); same(r, d); logged();  } break;
    case 7: { auto &d = d0; auto x0 = val<uint8_t>(d, 0); exp_(x0); auto x1 = val<std::unique_ptr<std::vector<uint32_t>>>(d, 1); exp_(x1); auto x2 = val<std::unique_ptr<std::vector<uint32_t>>>(d, 2); exp_(x2); auto x3 = val<uint64_t>(d, 3); exp_(x3); auto r = w_uvec(std::move(x0), std::move(x1), std::move(x2), std::move(x3)); same(r, d); logged();  } break;
    case 8: { auto d = d0.fallible(); auto x0 = val<std::unique_ptr<std::vector<uint32_t>>>(d, 0); exp_(x0); auto x1 = val<uint16_t>(d, 1); exp_(x1); try { auto r = t_uvec(std::move(x0), std::move(x1)); same(r, d); sym_assert(!d.fail, "ok"); } catch (const rust::Error &e) { sym_assert(d.fail && std::string(e.what()) == "Bad", "err"); } logged();  } break;
    case 9: { auto &d = d0; auto x0 = val<std::unique_ptr<N>>(d, 0); exp_(x0); auto r = v_un(std::move(x0)); same(r, d); logged();  } break;
    case 10: { auto &d = d0; auto x0 = val<uint8_t>(d, 0); exp_(x0); auto x1 = val<std::unique_ptr<N>>(d, 1); exp_(x1); auto x2 = val<std::unique_ptr<N>>(d, 2); exp_(x2); auto x3 = val<uint64_t>(d, 3); exp_(x3); auto r = w_un(std::move(x0), std::move(x1), std::move(x2), std::move(x3)); same(r, d); logged();  } break;
    case 11: { auto d = d0.fallible(); auto x0 = val<std::unique_ptr<N>>(d, 0); exp_(x0); auto x1 = val<uint16_t>(d, 1); exp_(x1); try { auto r = t_un(std::move(x0), std::move(x1)); same(r, d); sym_assert(!d.fail, "ok"); } catch (const rust::Error &e) { sym_assert(d.fail && std::string(e.what()) == "Bad", "err"); } logged();  } break;
    case 12: { auto &d = d0; auto x0 = val<std::shared_ptr<C>>(d, 0); exp_(x0); auto r = v_sobj(std::move(x0)); same(r, d); logged();  } break;
    case 13: { auto &d = d0; auto x0 = val<uint8_t>(d, 0); exp_(x0); auto x1 = val<std::shared_ptr<C>>(d, 1); exp_(x1); auto x2 = val<std::shared_ptr<C>>(d, 2); exp_(x2); auto x3 = val<uint64_t>(d, 3); exp_(x3); auto r = w_sobj(std::move(x0), std::move(x1), std::move(x2), std::move(x3)); same(r, d); logged();  } break;
    case 14: { auto d = d0.fallible(); auto x0 = val<std::shared_ptr<C>>(d, 0); exp_(x0); auto x1 = val<uint16_t>(d, 1); exp_(x1); try { auto r = t_sobj(std::move(x0), std::move(x1)); same(r, d); sym_assert(!d.fail, "ok"); } catch (const rust::Error &e) { sym_assert(d.fail && std::string(e.what()) == "Bad", "err"); } logged();  } break;
    case 15: { auto &d = d0; auto x0 = val<std::shared_ptr<uint64_t>>(d, 0); exp_(x0); auto r = v_su64(std::move(x0)); same(r, d); logged();  } break;
    case 16: { auto &d = d0; auto x0 = val<uint8_t>(d, 0); exp_(x0); auto x1 = val<std::shared_ptr<uint64_t>>(d, 1); exp_(x1); auto x2 = val<std::shared_ptr<uint64_t>>(d, 2); exp_(x2); auto x3 = val<uint64_t>(d, 3); exp_(x3); auto r = w_su64(std::move(x0), std::move(x1), std::move(x2), std::move(x3)); same(r, d); logged();  } break;
    case 17: { auto d = d0.fallible(); auto x0 = val<std::shared_ptr<uint64_t>>(d, 0); exp_(x0); auto x1 = val<uint16_t>(d, 1); exp_(x1); try { auto r = t_su64(std::move(x0), std::move(x1)); same(r, d); sym_assert(!d.fail, "ok"); } catch (const rust::Error &e) { sym_assert(d.fail && std::string(e.what()) == "Bad", "err"); } logged();  } break;
    case 18: { auto &d = d0; auto x0 = val<std::weak_ptr<C>>(d, 0); exp_(x0); auto r = v_wobj(std::move(x0)); same(r, d); logged();  } break;
    case 19: { auto &d = d0; auto x0 = val<uint8_t>(d, 0); exp_(x0); auto x1 = val<std::weak_ptr<C>>(d, 1); exp_(x1); auto x2 = val<std::weak_ptr<C>>(d, 2); exp_(x2); auto x3 = val<uint64_t>(d, 3); exp_(x3); auto r = w_wobj(std::move(x0), std::move(x1), std::move(x2), std::move(x3)); same(r, d); logged();  } break;
    case 20: { auto d = d0.fallible(); auto x0 = val<std::weak_ptr<C>>(d, 0); exp_(x0); auto x1 = val<uint16_t>(d, 1); exp_(x1); try { auto r = t_wobj(std::move(x0), std::move(x1)); same(r, d); sym_assert(!d.fail, "ok"); } catch (const rust::Error &e) { sym_assert(d.fail && std::string(e.what()) == "Bad", "err"); } logged();  } break;
    case 21: { auto &d = d0; auto x0 = val<P1>(d, 0); exp_(x0); auto r = v_p1(std::move(x0)); same(r, d); logged();  } break;
    case 22: { auto &d = d0; auto x0 = val<uint8_t>(d, 0); exp_(x0); auto x1 = val<P1>(d, 1); exp_(x1); auto x2 = val<P1>(d, 2); exp_(x2); auto x3 = val<uint64_t>(d, 3); exp_(x3); auto r = w_p1(std::move(x0), std::move(x1), std::move(x2), std::move(x3)); same(r, d); logged();  } break;
    case 23: { auto d = d0.fallible(); auto x0 = val<P1>(d, 0); exp_(x0); auto x1 = val<uint16_t>(d, 1); exp_(x1); try { auto r = t_p1(std::move(x0), std::move(x1)); same(r, d); sym_assert(!d.fail, "ok"); } catch (const rust::Error &e) { sym_assert(d.fail && std::string(e.what()) == "Bad", "err"); } logged();  } break;
} }); }
extern "C" void h_04() { run([](const Data &d0) { switch (sym_choice(24, "function")) {
    case 0: { auto &d = d0; auto x0 = val<P2>(d, 0); exp_(x0); auto r = v_p2(std::move(x0)); same(r, d); logged();  } break;
    case 1: { auto &d = d0; auto x0 = val<uint8_t>(d, 0); exp_(x0); auto x1 = val<P2>(d, 1); exp_(x1); auto x2 = val<P2>(d, 2); exp_(x2); auto x3 = val<uint64_t>(d, 3); exp_(x3); auto r = w_p2(std::move(x0), std::move(x1), std::move(x2), std::move(x3)); same(r, d); logged();  } break;
    case 2: { auto d = d0.fallible(); auto x0 = val<P2>(d, 0); exp_(x0); auto x1 = val<uint16_t>(d, 1); exp_(x1); try { auto r = t_p2(std::move(x0), std::move(x1)); same(r, d); sym_assert(!d.fail, "ok"); } catch (const rust::Error &e) { sym_assert(d.fail && std::string(e.what()) == "Bad", "err"); } logged();  } break;
    case 3: { auto &d = d0; auto x0 = val<F2>(d, 0); exp_(x0); auto r = v_f2(std::move(x0)); same(r, d); logged();  } break;
    case 4: { auto &d = d0; auto x0 = val<uint8_t>(d, 0); exp_(x0); auto x1 = val<F2>(d, 1); exp_(x1); auto x2 = val<F2>(d, 2); exp_(x2); auto x3 = val<uint64_t>(d, 3); exp_(x3); auto r = w_f2(std::move(x0), std::move(x1), std::move(x2), std::move(x3)); same(r, d); logged();  } break;
    case 5: { auto d = d0.fallible(); auto x0 = val<F2>(d, 0); exp_(x0); auto x1 = val<uint16_t>(d, 1); exp_(x1); try { auto r = t_f2(std::move(x0), std::move(x1)); same(r, d); sym_assert(!d.fail, "ok"); } catch (const rust::Error &e) { sym_assert(d.fail && std::string(e.what()) == "Bad", "err"); } logged();  } break;
    case 6: { auto &d = d0; auto x0 = val<FI>(d, 0); exp_(x0); auto r = v_fi(std::move(x0)); same(r, d); logged();  } break;
    case 7: { auto &d = d0; auto x0 = val<uint8_t>(d, 0); exp_(x0); auto x1 = val<FI>(d, 1); exp_(x1); auto x2 = val<FI>(d, 2); exp_(x2); auto x3 = val<uint64_t>(d, 3); exp_(x3); auto r = w_fi(std::move(x0), std::move(x1), std::move(x2), std::move(x3)); same(r, d); logged();  } break;
    case 8: { auto d = d0.fallible(); auto x0 = val<FI>(d, 0); exp_(x0); auto x1 = val<uint16_t>(d, 1); exp_(x1); try { auto r = t_fi(std::move(x0), std::move(x1)); same(r, d); sym_assert(!d.fail, "ok"); } catch (const rust::Error &e) { sym_assert(d.fail && std::string(e.what()) == "Bad", "err"); } logged();  } break;
    case 9: { auto &d = d0; auto x0 = val<Q2>(d, 0); exp_(x0); auto r = v_q2(std::move(x0)); same(r, d); logged();  } break;
    case 10: { auto &d = d0; auto x0 = val<uint8_t>(d, 0); exp_(x0); auto x1 = val<Q2>(d, 1); exp_(x1); auto x2 = val<Q2>(d, 2); exp_(x2); auto x3 = val<uint64_t>(d, 3); exp_(x3); auto r = w_q2(std::move(x0), std::move(x1), std::move(x2), std::move(x3)); same(r, d); logged();  } break;
    case 11: { auto d = d0.fallible(); auto x0 = val<Q2>(d, 0); exp_(x0); auto x1 = val<uint16_t>(d, 1); exp_(x1); try { auto r = t_q2(std::move(x0), std::move(x1)); same(r, d); sym_assert(!d.fail, "ok"); } catch (const rust::Error &e) { sym_assert(d.fail && std::string(e.what()) == "Bad", "err"); } logged();  } break;
    case 12: { auto &d = d0; auto x0 = val<Q3>(d, 0); exp_(x0); auto r = v_q3(std::move(x0)); same(r, d); logged();  } break;
    case 13: { auto &d = d0; auto x0 = val<uint8_t>(d, 0); exp_(x0); auto x1 = val<Q3>(d, 1); exp_(x1); auto x2 = val<Q3>(d, 2); exp_(x2); auto x3 = val<uint64_t>(d, 3); exp_(x3); auto r = w_q3(std::move(x0), std::move(x1), std::move(x2), std::move(x3)); same(r, d); logged();  } break;
    case 14: { auto d = d0.fallible(); auto x0 = val<Q3>(d, 0); exp_(x0); auto x1 = val<uint16_t>(d, 1); exp_(x1); try { auto r = t_q3(std::move(x0), std::move(x1)); same(r, d); sym_assert(!d.fail, "ok"); } catch (const rust::Error &e) { sym_assert(d.fail && std::string(e.what()) == "Bad", "err"); } logged();  } break;
    case 15: { auto &d = d0; auto x0 = val<D4>(d, 0); exp_(x0); auto r = v_d4(std::move(x0)); same(r, d); logged();  } break;
    case 16: { auto &d = d0; auto x0 = val<uint8_t>(d, 0); exp_(x0); auto x1 = val<D4>(d, 1); exp_(x1); auto x2 = val<D4>(d, 2); exp_(x2); auto x3 = val<uint64_t>(d, 3); exp_(x3); auto r = w_d4(std::move(x0), std::move(x1), std::move(x2), std::move(x3)); same(r, d); logged();  } break;
    case 17: { auto d = d0.fallible(); auto x0 = val<D4>(d, 0); exp_(x0); auto x1 = val<uint16_t>(d, 1); exp_(x1); try { auto r = t_d4(std::move(x0), std::move(x1)); same(r, d); sym_assert(!d.fail, "ok"); } catch (const rust::Error &e) { sym_assert(d.fail && std::string(e.what()) == "Bad", "err"); } logged();  } break;
    case 18: { auto &d = d0; auto x0 = val<N>(d, 0); exp_(x0); auto r = v_n(std::move(x0)); same(r, d); logged();  } break;
    case 19: { auto &d = d0; auto x0 = val<uint8_t>(d, 0); exp_(x0); auto x1 = val<N>(d, 1); exp_(x1); auto x2 = val<N>(d, 2); exp_(x2); auto x3 = val<uint64_t>(d, 3); exp_(x3); auto r = w_n(std::move(x0), std::move(x1), std::move(x2), std::move(x3)); same(r, d); logged();  } break;
    case 20: { auto d = d0.fallible(); auto x0 = val<N>(d, 0); exp_(x0); auto x1 = val<uint16_t>(d, 1); exp_(x1); try { auto r = t_n(std::move(x0), std::move(x1)); same(r, d); sym_assert(!d.fail, "ok"); } catch (const rust::Error &e) { sym_assert(d.fail && std::string(e.what()) == "Bad", "err"); } logged();  } break;
    case 21: { auto &d = d0; auto x0 = val<Ar>(d, 0); exp_(x0); auto r = v_ar(std::move(x0)); same(r, d); logged();  } break;
    case 22: { auto &d = d0; auto x0 = val<uint8_t>(d, 0); exp_(x0); auto x1 = val<Ar>(d, 1); exp_(x1); auto x2 = val<Ar>(d, 2); exp_(x2); auto x3 = val<uint64_t>(d, 3); exp_(x3); auto r = w_ar(std::move(x0), std::move(x1), std::move(x2), std::move(x3)); same(r, d); logged();  } break;
    case 23: { auto d = d0.fallible(); auto x0 = val<Ar>(d, 0); exp_(x0); auto x1 = val<uint16_t>(d, 1); exp_(x1); try { auto r = t_ar(std::move(x0), std::move(x1)); same(r, d); sym_assert(!d.fail, "ok"); } catch (const rust::Error &e) { sym_assert(d.fail && std::string(e.what()) == "Bad", "err"); } logged();  } break;
} }); }
extern "C" void h_05() { run([](const Data &d0) { switch (sym_choice(24, "function")) {
    case 0: { auto &d = d0; auto x0 = val<Nest>(d, 0); exp_(x0); auto r = v_nest(std::move(x0)); same(r, d); logged();  } break;
    case 1: { auto &d = d0; auto x0 = val<uint8_t>(d, 0); exp_(x0); auto x1 = val<Nest>(d, 1); exp_(x1); auto x2 = val<Nest>(d, 2); exp_(x2); auto x3 = val<uint64_t>(d, 3); exp_(x3); auto r = w_nest(std::move(x0), std::move(x1), std::move(x2), std::move(x3)); same(r, d); logged();  } break;
    case 2: { auto d = d0.fallible(); auto x0 = val<Nest>(d, 0); exp_(x0); auto x1 = val<uint16_t>(d, 1); exp_(x1); try { auto r = t_nest(std::move(x0), std::move(x1)); same(r, d); sym_assert(!d.fail, "ok"); } catch (const rust::Error &e) { sym_assert(d.fail && std::string(e.what()) == "Bad", "err"); } logged();  } break;
    case 3: { auto &d = d0; auto x0 = val<En>(d, 0); exp_(x0); auto r = v_en(std::move(x0)); same(r, d); logged();  } break;
    case 4: { auto &d = d0; auto x0 = val<uint8_t>(d, 0); exp_(x0); auto x1 = val<En>(d, 1); exp_(x1); auto x2 = val<En>(d, 2); exp_(x2); auto x3 = val<uint64_t>(d, 3); exp_(x3); auto r = w_en(std::move(x0), std::move(x1), std::move(x2), std::move(x3)); same(r, d); logged();  } break;
    case 5: { auto d = d0.fallible(); auto x0 = val<En>(d, 0); exp_(x0); auto x1 = val<uint16_t>(d, 1); exp_(x1); try { auto r = t_en(std::move(x0), std::move(x1)); same(r, d); sym_assert(!d.fail, "ok"); } catch (const rust::Error &e) { sym_assert(d.fail && std::string(e.what()) == "Bad", "err"); } logged();  } break;
    case 6: { auto &d = d0; auto x0 = val<Ei16>(d, 0); exp_(x0); auto r = v_ei16(std::move(x0)); same(r, d); logged();  } break;
    case 7: { auto &d = d0; auto x0 = val<uint8_t>(d, 0); exp_(x0); auto x1 = val<Ei16>(d, 1); exp_(x1); auto x2 = val<Ei16>(d, 2); exp_(x2); auto x3 = val<uint64_t>(d, 3); exp_(x3); auto r = w_ei16(std::move(x0), std::move(x1), std::move(x2), std::move(x3)); same(r, d); logged();  } break;
    case 8: { auto d = d0.fallible(); auto x0 = val<Ei16>(d, 0); exp_(x0); auto x1 = val<uint16_t>(d, 1); exp_(x1); try { auto r = t_ei16(std::move(x0), std::move(x1)); same(r, d); sym_assert(!d.fail, "ok"); } catch (const rust::Error &e) { sym_assert(d.fail && std::string(e.what()) == "Bad", "err"); } logged();  } break;
    case 9: { auto &d = d0; auto x0 = val<Eu64>(d, 0); exp_(x0); auto r = v_eu64(std::move(x0)); same(r, d); logged();  } break;
    case 10: { auto &d = d0; auto x0 = val<uint8_t>(d, 0); exp_(x0); auto x1 = val<Eu64>(d, 1); exp_(x1); auto x2 = val<Eu64>(d, 2); exp_(x2); auto x3 = val<uint64_t>(d, 3); exp_(x3); auto r = w_eu64(std::move(x0), std::move(x1), std::move(x2), std::move(x3)); same(r, d); logged();  } break;
    case 11: { auto d = d0.fallible(); auto x0 = val<Eu64>(d, 0); exp_(x0); auto x1 = val<uint16_t>(d, 1); exp_(x1); try { auto r = t_eu64(std::move(x0), std::move(x1)); same(r, d); sym_assert(!d.fail, "ok"); } catch (const rust::Error &e) { sym_assert(d.fail && std::string(e.what()) == "Bad", "err"); } logged();  } break;
    case 12: { auto &d = d0; auto x0 = val<T1>(d, 0); exp_(x0); auto r = v_t1(std::move(x0)); same(r, d); logged();  } break;
    case 13: { auto &d = d0; auto x0 = val<uint8_t>(d, 0); exp_(x0); auto x1 = val<T1>(d, 1); exp_(x1); auto x2 = val<T1>(d, 2); exp_(x2); auto x3 = val<uint64_t>(d, 3); exp_(x3); auto r = w_t1(std::move(x0), std::move(x1), std::move(x2), std::move(x3)); same(r, d); logged();  } break;
    case 14: { auto d = d0.fallible(); auto x0 = val<T1>(d, 0); exp_(x0); auto x1 = val<uint16_t>(d, 1); exp_(x1); try { auto r = t_t1(std::move(x0), std::move(x1)); same(r, d); sym_assert(!d.fail, "ok"); } catch (const rust::Error &e) { sym_assert(d.fail && std::string(e.what()) == "Bad", "err"); } logged();  } break;
    case 15: { auto &d = d0; auto x0 = val<T3>(d, 0); exp_(x0); auto r = v_t3(std::move(x0)); same(r, d); logged();  } break;
    case 16: { auto &d = d0; auto x0 = val<uint8_t>(d, 0); exp_(x0); auto x1 = val<T3>(d, 1); exp_(x1); auto x2 = val<T3>(d, 2); exp_(x2); auto x3 = val<uint64_t>(d, 3); exp_(x3); auto r = w_t3(std::move(x0), std::move(x1), std::move(x2), std::move(x3)); same(r, d); logged();  } break;
    case 17: { auto d = d0.fallible(); auto x0 = val<T3>(d, 0); exp_(x0); auto x1 = val<uint16_t>(d, 1); exp_(x1); try { auto r = t_t3(std::move(x0), std::move(x1)); same(r, d); sym_assert(!d.fail, "ok"); } catch (const rust::Error &e) { sym_assert(d.fail && std::string(e.what()) == "Bad", "err"); } logged();  } break;
    case 18: { auto &d = d0; auto x0 = val<Tx>(d, 0); exp_(x0); auto r = v_tx(std::move(x0)); same(r, d); logged();  } break;
    case 19: { auto &d = d0; auto x0 = val<uint8_t>(d, 0); exp_(x0); auto x1 = val<Tx>(d, 1); exp_(x1); auto x2 = val<Tx>(d, 2); exp_(x2); auto x3 = val<uint64_t>(d, 3); exp_(x3); auto r = w_tx(std::move(x0), std::move(x1), std::move(x2), std::move(x3)); same(r, d); logged();  } break;
    case 20: { auto d = d0.fallible(); auto x0 = val<Tx>(d, 0); exp_(x0); auto x1 = val<uint16_t>(d, 1); exp_(x1); try { auto r = t_tx(std::move(x0), std::move(x1)); same(r, d); sym_assert(!d.fail, "ok"); } catch (const rust::Error &e) { sym_assert(d.fail && std::string(e.what()) == "Bad", "err"); } logged();  } break;
    case 21: { auto &d = d0; auto x0 = val<std::array<uint8_t, 5>>(d, 0); exp_(x0); auto r = v_arr5(std::move(x0)); same(r, d); logged();  } break;
    case 22: { auto &d = d0; auto x0 = val<uint8_t>(d, 0); exp_(x0); auto x1 = val<std::array<uint8_t, 5>>(d, 1); exp_(x1); auto x2 = val<std::array<uint8_t, 5>>(d, 2); exp_(x2); auto x3 = val<uint64_t>(d, 3); exp_(x3); auto r = w_arr5(std::move(x0), std::move(x1), std::move(x2), std::move(x3)); same(r, d); logged();  } break;
    case 23: { auto d = d0.fallible(); auto x0 = val<std::array<uint8_t, 5>>(d, 0); exp_(x0); auto x1 = val<uint16_t>(d, 1); exp_(x1); try { auto r = t_arr5(std::move(x0), std::move(x1)); same(r, d); sym_assert(!d.fail, "ok"); } catch (const rust::Error &e) { sym_assert(d.fail && std::string(e.what()) == "Bad", "err"); } logged();  } break;
} }); }
extern "C" void h_06() { run([](const Data &d0) { switch (sym_choice(24, "function")) {
    case 0: { auto &d = d0; auto x0 = val<std::array<rust::String, 2>>(d, 0); exp_(x0); auto r = v_arrs(std::move(x0)); same(r, d); logged();  } break;
    case 1: { auto &d = d0; auto x0 = val<uint8_t>(d, 0); exp_(x0); auto x1 = val<std::array<rust::String, 2>>(d, 1); exp_(x1); auto x2 = val<std::array<rust::String, 2>>(d, 2); exp_(x2); auto x3 = val<uint64_t>(d, 3); exp_(x3); auto r = w_arrs(std::move(x0), std::move(x1), std::move(x2), std::move(x3)); same(r, d); logged();  } break;
    case 2: { auto d = d0.fallible(); auto x0 = val<std::array<rust::String, 2>>(d, 0); exp_(x0); auto x1 = val<uint16_t>(d, 1); exp_(x1); try { auto r = t_arrs(std::move(x0), std::move(x1)); same(r, d); sym_assert(!d.fail, "ok"); } catch (const rust::Error &e) { sym_assert(d.fail && std::string(e.what()) == "Bad", "err"); } logged();  } break;
    case 3: { auto &d = d0; Own<bool> x0(d, 0); expa(x0.addr()); exp_(x0.get()); Own<bool> x1(d, 1); expa(x1.addr()); exp_(x1.get()); r_bool(x0.get(), x1.get()); logged();  } break;
    case 4: { auto &d = d0; Own<bool> x0(d, 0); expa(x0.addr()); exp_(x0.get()); auto x1 = val<uint16_t>(d, 1); exp_(x1); m_bool(x0.get(), std::move(x1)); logged(); seen(x0.get(), d); } break;
    case 5: { auto &d = d0; Own<bool> x0(d, 0); expa(x0.addr()); exp_(x0.get()); auto &r = rr_bool(x0.get()); sym_assert((void *)&r == x0.ptr(), "returned-reference"); logged();  } break;
    case 6: { auto &d = d0; Own<bool> x0(d, 0); expa(x0.addr()); exp_(x0.get()); auto &r = mm_bool(x0.get()); sym_assert((void *)&r == x0.ptr(), "returned-reference"); logged(); seen(x0.get(), d); } break;
    case 7: { auto d = d0.fallible(); Own<bool> x0(d, 0); expa(x0.addr()); exp_(x0.get()); try { auto &r = tr_bool(x0.get()); sym_assert((void *)&r == x0.ptr(), "returned-reference"); sym_assert(!d.fail, "ok"); } catch (const rust::Error &e) { sym_assert(d.fail && std::string(e.what()) == "Bad", "err"); } logged();  } break;
    case 8: { auto d = d0.fallible(); Own<bool> x0(d, 0); expa(x0.addr()); exp_(x0.get()); try { auto &r = tm_bool(x0.get()); sym_assert((void *)&r == x0.ptr(), "returned-reference"); sym_assert(!d.fail, "ok"); } catch (const rust::Error &e) { sym_assert(d.fail && std::string(e.what()) == "Bad", "err"); } logged(); seen(x0.get(), d); } break;
    case 9: { auto &d = d0; Own<char> x0(d, 0); expa(x0.addr()); exp_(x0.get()); Own<char> x1(d, 1); expa(x1.addr()); exp_(x1.get()); r_c_char(x0.get(), x1.get()); logged();  } break;
    case 10: { auto &d = d0; Own<char> x0(d, 0); expa(x0.addr()); exp_(x0.get()); auto x1 = val<uint16_t>(d, 1); exp_(x1); m_c_char(x0.get(), std::move(x1)); logged(); seen(x0.get(), d); } break;
    case 11: { auto &d = d0; Own<char> x0(d, 0); expa(x0.addr()); exp_(x0.get()); auto &r = rr_c_char(x0.get()); sym_assert((void *)&r == x0.ptr(), "returned-reference"); logged();  } break;
    case 12: { auto &d = d0; Own<char> x0(d, 0); expa(x0.addr()); exp_(x0.get()); auto &r = mm_c_char(x0.get()); sym_assert((void *)&r == x0.ptr(), "returned-reference"); logged(); seen(x0.get(), d); } break;
    case 13: { auto d = d0.fallible(); Own<char> x0(d, 0); expa(x0.addr()); exp_(x0.get()); try { auto &r = tr_c_char(x0.get()); sym_assert((void *)&r == x0.ptr(), "returned-reference"); sym_assert(!d.fail, "ok"); } catch (const rust::Error &e) { sym_assert(d.fail && std::string(e.what()) == "Bad", "err"); } logged();  } break;
    case 14: { auto d = d0.fallible(); Own<char> x0(d, 0); expa(x0.addr()); exp_(x0.get()); try { auto &r = tm_c_char(x0.get()); sym_assert((void *)&r == x0.ptr(), "returned-reference"); sym_assert(!d.fail, "ok"); } catch (const rust::Error &e) { sym_assert(d.fail && std::string(e.what()) == "Bad", "err"); } logged(); seen(x0.get(), d); } break;
    case 15: { auto &d = d0; Own<uint8_t> x0(d, 0); expa(x0.addr()); exp_(x0.get()); Own<uint8_t> x1(d, 1); expa(x1.addr()); exp_(x1.get()); r_u8(x0.get(), x1.get()); logged();  } break;
    case 16: { auto &d = d0; Own<uint8_t> x0(d, 0); expa(x0.addr()); exp_(x0.get()); auto x1 = val<uint16_t>(d, 1); exp_(x1); m_u8(x0.get(), std::move(x1)); logged(); seen(x0.get(), d); } break;
    case 17: { auto &d = d0; Own<uint8_t> x0(d, 0); expa(x0.addr()); exp_(x0.get()); auto &r = rr_u8(x0.get()); sym_assert((void *)&r == x0.ptr(), "returned-reference"); logged();  } break;
    case 18: { auto &d = d0; Own<uint8_t> x0(d, 0); expa(x0.addr()); exp_(x0.get()); auto &r = mm_u8(x0.get()); sym_assert((void *)&r == x0.ptr(), "returned-reference"); logged(); seen(x0.get(), d); } break;
    case 19: { auto d = d0.fallible(); Own<uint8_t> x0(d, 0); expa(x0.addr()); exp_(x0.get()); try { auto &r = tr_u8(x0.get()); sym_assert((void *)&r == x0.ptr(), "returned-reference"); sym_assert(!d.fail, "ok"); } catch (const rust::Error &e) { sym_assert(d.fail && std::string(e.what()) == "Bad", "err"); } logged();  } break;
    case 20: { auto d = d0.fallible(); Own<uint8_t> x0(d, 0); expa(x0.addr()); exp_(x0.get()); try { auto &r = tm_u8(x0.get()); sym_assert((void *)&r == x0.ptr(), "returned-reference"); sym_assert(!d.fail, "ok"); } catch (const rust::Error &e) { sym_assert(d.fail && std::string(e.what()) == "Bad", "err"); } logged(); seen(x0.get(), d); } break;
    case 21: { auto &d = d0; Own<uint16_t> x0(d, 0); expa(x0.addr()); exp_(x0.get()); Own<uint16_t> x1(d, 1); expa(x1.addr()); exp_(x1.get()); r_u16(x0.get(), x1.get()); logged();  } break;
    case 22: { auto &d = d0; Own<uint16_t> x0(d, 0); expa(x0.addr()); exp_(x0.get()); auto x1 = val<uint16_t>(d, 1); exp_(x1); m_u16(x0.get(), std::move(x1)); logged(); seen(x0.get(), d); } break;
    case 23: { auto &d = d0; Own<uint16_t> x0(d, 0); expa(x0.addr()); exp_(x0.get()); auto &r = rr_u16(x0.get()); sym_assert((void *)&r == x0.ptr(), "returned-reference"); logged();  } break;
} }); }
extern "C" void h_07() { run([](const Data &d0) { switch (sym_choice(24, "function")) {
    case 0: { auto &d = d0; Own<uint16_t> x0(d, 0); expa(x0.addr()); exp_(x0.get()); auto &r = mm_u16(x0.get()); sym_assert((void *)&r == x0.ptr(), "returned-reference"); logged(); seen(x0.get(), d); } break;
    case 1: { auto d = d0.fallible(); Own<uint16_t> x0(d, 0); expa(x0.addr()); exp_(x0.get()); try { auto &r = tr_u16(x0.get()); sym_assert((void *)&r == x0.ptr(), "returned-reference"); sym_assert(!d.fail, "ok"); } catch (const rust::Error &e) { sym_assert(d.fail && std::string(e.what()) == "Bad", "err"); } logged();  } break;
    case 2: { auto d = d0.fallible(); Own<uint16_t> x0(d, 0); expa(x0.addr()); exp_(x0.get()); try { auto &r = tm_u16(x0.get()); sym_assert((void *)&r == x0.ptr(), "returned-reference"); sym_assert(!d.fail, "ok"); } catch (const rust::Error &e) { sym_assert(d.fail && std::string(e.what()) == "Bad", "err"); } logged(); seen(x0.get(), d); } break;
    case 3: { auto &d = d0; Own<uint32_t> x0(d, 0); expa(x0.addr()); exp_(x0.get()); Own<uint32_t> x1(d, 1); expa(x1.addr()); exp_(x1.get()); r_u32(x0.get(), x1.get()); logged();  } break;
    case 4: { auto &d = d0; Own<uint32_t> x0(d, 0); expa(x0.addr()); exp_(x0.get()); auto x1 = val<uint16_t>(d, 1); exp_(x1); m_u32(x0.get(), std::move(x1)); logged(); seen(x0.get(), d); } break;
    case 5: { auto &d = d0; Own<uint32_t> x0(d, 0); expa(x0.addr()); exp_(x0.get()); auto &r = rr_u32(x0.get()); sym_assert((void *)&r == x0.ptr(), "returned-reference"); logged();  } break;
    case 6: { auto &d = d0; Own<uint32_t> x0(d, 0); expa(x0.addr()); exp_(x0.get()); auto &r = mm_u32(x0.get()); sym_assert((void *)&r == x0.ptr(), "returned-reference"); logged(); seen(x0.get(), d); } break;
    case 7: { auto d = d0.fallible(); Own<uint32_t> x0(d, 0); expa(x0.addr()); exp_(x0.get()); try { auto &r = tr_u32(x0.get()); sym_assert((void *)&r == x0.ptr(), "returned-reference"); sym_assert(!d.fail, "ok"); } catch (const rust::Error &e) { sym_assert(d.fail && std::string(e.what()) == "Bad", "err"); } logged();  } break;
    case 8: { auto d = d0.fallible(); Own<uint32_t> x0(d, 0); expa(x0.addr()); exp_(x0.get()); try { auto &r = tm_u32(x0.get()); sym_assert((void *)&r == x0.ptr(), "returned-reference"); sym_assert(!d.fail, "ok"); } catch (const rust::Error &e) { sym_assert(d.fail && std::string(e.what()) == "Bad", "err"); } logged(); seen(x0.get(), d); } break;
    case 9: { auto &d = d0; Own<uint64_t> x0(d, 0); expa(x0.addr()); exp_(x0.get()); Own<uint64_t> x1(d, 1); expa(x1.addr()); exp_(x1.get()); r_u64(x0.get(), x1.get()); logged();  } break;
    case 10: { auto &d = d0; Own<uint64_t> x0(d, 0); expa(x0.addr()); exp_(x0.get()); auto x1 = val<uint16_t>(d, 1); exp_(x1); m_u64(x0.get(), std::move(x1)); logged(); seen(x0.get(), d); } break;
    case 11: { auto &d = d0; Own<uint64_t> x0(d, 0); expa(x0.addr()); exp_(x0.get()); auto &r = rr_u64(x0.get()); sym_assert((void *)&r == x0.ptr(), "returned-reference"); logged();  } break;
    case 12: { auto &d = d0; Own<uint64_t> x0(d, 0); expa(x0.addr()); exp_(x0.get()); auto &r = mm_u64(x0.get()); sym_assert((void *)&r == x0.ptr(), "returned-reference"); logged(); seen(x0.get(), d); } break;
    case 13: { auto d = d0.fallible(); Own<uint64_t> x0(d, 0); expa(x0.addr()); exp_(x0.get()); try { auto &r = tr_u64(x0.get()); sym_assert((void *)&r == x0.ptr(), "returned-reference"); sym_assert(!d.fail, "ok"); } catch (const rust::Error &e) { sym_assert(d.fail && std::string(e.what()) == "Bad", "err"); } logged();  } break;
    case 14: { auto d = d0.fallible(); Own<uint64_t> x0(d, 0); expa(x0.addr()); exp_(x0.get()); try { auto &r = tm_u64(x0.get()); sym_assert((void *)&r == x0.ptr(), "returned-reference"); sym_assert(!d.fail, "ok"); } catch (const rust::Error &e) { sym_assert(d.fail && std::string(e.what()) == "Bad", "err"); } logged(); seen(x0.get(), d); } break;
    case 15: { auto &d = d0; Own<size_t> x0(d, 0); expa(x0.addr()); exp_(x0.get()); Own<size_t> x1(d, 1); expa(x1.addr()); exp_(x1.get()); r_usize(x0.get(), x1.get()); logged();  } break;
    case 16: { auto &d = d0; Own<size_t> x0(d, 0); expa(x0.addr()); exp_(x0.get()); auto x1 = val<uint16_t>(d, 1); exp_(x1); m_usize(x0.get(), std::move(x1)); logged(); seen(x0.get(), d); } break;
    case 17: { auto &d = d0; Own<size_t> x0(d, 0); expa(x0.addr()); exp_(x0.get()); auto &r = rr_usize(x0.get()); sym_assert((void *)&r == x0.ptr(), "returned-reference"); logged();  } break;
    case 18: { auto &d = d0; Own<size_t> x0(d, 0); expa(x0.addr()); exp_(x0.get()); auto &r = mm_usize(x0.get()); sym_assert((void *)&r == x0.ptr(), "returned-reference"); logged(); seen(x0.get(), d); } break;
    case 19: { auto d = d0.fallible(); Own<size_t> x0(d, 0); expa(x0.addr()); exp_(x0.get()); try { auto &r = tr_usize(x0.get()); sym_assert((void *)&r == x0.ptr(), "returned-reference"); sym_assert(!d.fail, "ok"); } catch (const rust::Error &e) { sym_assert(d.fail && std::string(e.what()) == "Bad", "err"); } logged();  } break;
    case 20: { auto d = d0.fallible(); Own<size_t> x0(d, 0); expa(x0.addr()); exp_(x0.get()); try { auto &r = tm_usize(x0.get()); sym_assert((void *)&r == x0.ptr(), "returned-reference"); sym_assert(!d.fail, "ok"); } catch (const rust::Error &e) { sym_assert(d.fail && std::string(e.what()) == "Bad", "err"); } logged(); seen(x0.get(), d); } break;
    case 21: { auto &d = d0; Own<int8_t> x0(d, 0); expa(x0.addr()); exp_(x0.get()); Own<int8_t> x1(d, 1); expa(x1.addr()); exp_(x1.get()); r_i8(x0.get(), x1.get()); logged();  } break;
    case 22: { auto &d = d0; Own<int8_t> x0(d, 0); expa(x0.addr()); exp_(x0.get()); auto x1 = val<uint16_t>(d, 1); exp_(x1); m_i8(x0.get(), std::move(x1)); logged(); seen(x0.get(), d); } break;
    case 23: { auto &d = d0; Own<int8_t> x0(d, 0); expa(x0.addr()); exp_(x0.get()); auto &r = rr_i8(x0.get()); sym_assert((void *)&r == x0.ptr(), "returned-reference"); logged();  } break;
} }); }
extern "C" void h_08() { run([](const Data &d0) { switch (sym_choice(24, "function")) {
    case 0: { auto &d = d0; Own<int8_t> x0(d, 0); expa(x0.addr()); exp_(x0.get()); auto &r = mm_i8(x0.get()); sym_assert((void *)&r == x0.ptr(), "returned-reference"); logged(); seen(x0.get(), d); } break;
    case 1: { auto d = d0.fallible(); Own<int8_t> x0(d, 0); expa(x0.addr()); exp_(x0.get()); try { auto &r = tr_i8(x0.get()); sym_assert((void *)&r == x0.ptr(), "returned-reference"); sym_assert(!d.fail, "ok"); } catch (const rust::Error &e) { sym_assert(d.fail && std::string(e.what()) == "Bad", "err"); } logged();  } break;
    case 2: { auto d = d0.fallible(); Own<int8_t> x0(d, 0); expa(x0.addr()); exp_(x0.get()); try { auto &r = tm_i8(x0.get()); sym_assert((void *)&r == x0.ptr(), "returned-reference"); sym_assert(!d.fail, "ok"); } catch (const rust::Error &e) { sym_assert(d.fail && std::string(e.what()) == "Bad", "err"); } logged(); seen(x0.get(), d); } break;
    case 3: { auto &d = d0; Own<int16_t> x0(d, 0); expa(x0.addr()); exp_(x0.get()); Own<int16_t> x1(d, 1); expa(x1.addr()); exp_(x1.get()); r_i16(x0.get(), x1.get()); logged();  } break;
    case 4: { auto &d = d0; Own<int16_t> x0(d, 0); expa(x0.addr()); exp_(x0.get()); auto x1 = val<uint16_t>(d, 1); exp_(x1); m_i16(x0.get(), std::move(x1)); logged(); seen(x0.get(), d); } break;
    case 5: { auto &d = d0; Own<int16_t> x0(d, 0); expa(x0.addr()); exp_(x0.get()); auto &r = rr_i16(x0.get()); sym_assert((void *)&r == x0.ptr(), "returned-reference"); logged();  } break;
    case 6: { auto &d = d0; Own<int16_t> x0(d, 0); expa(x0.addr()); exp_(x0.get()); auto &r = mm_i16(x0.get()); sym_assert((void *)&r == x0.ptr(), "returned-reference"); logged(); seen(x0.get(), d); } break;
    case 7: { auto d = d0.fallible(); Own<int16_t> x0(d, 0); expa(x0.addr()); exp_(x0.get()); try { auto &r = tr_i16(x0.get()); sym_assert((void *)&r == x0.ptr(), "returned-reference"); sym_assert(!d.fail, "ok"); } catch (const rust::Error &e) { sym_assert(d.fail && std::string(e.what()) == "Bad", "err"); } logged();  } break;
    case 8: { auto d = d0.fallible(); Own<int16_t> x0(d, 0); expa(x0.addr()); exp_(x0.get()); try { auto &r = tm_i16(x0.get()); sym_assert((void *)&r == x0.ptr(), "returned-reference"); sym_assert(!d.fail, "ok"); } catch (const rust::Error &e) { sym_assert(d.fail && std::string(e.what()) == "Bad", "err"); } logged(); seen(x0.get(), d); } break;
    case 9: { auto &d = d0; Own<int32_t> x0(d, 0); expa(x0.addr()); exp_(x0.get()); Own<int32_t> x1(d, 1); expa(x1.addr()); exp_(x1.get()); r_i32(x0.get(), x1.get()); logged();  } break;
    case 10: { auto &d = d0; Own<int32_t> x0(d, 0); expa(x0.addr()); exp_(x0.get()); auto x1 = val<uint16_t>(d, 1); exp_(x1); m_i32(x0.get(), std::move(x1)); logged(); seen(x0.get(), d); } break;
    case 11: { auto &d = d0; Own<int32_t> x0(d, 0); expa(x0.addr()); exp_(x0.get()); auto &r = rr_i32(x0.get()); sym_assert((void *)&r == x0.ptr(), "returned-reference"); logged();  } break;
    case 12: { auto &d = d0; Own<int32_t> x0(d, 0); expa(x0.addr()); exp_(x0.get()); auto &r = mm_i32(x0.get()); sym_assert((void *)&r == x0.ptr(), "returned-reference"); logged(); seen(x0.get(), d); } break;
    case 13: { auto d = d0.fallible(); Own<int32_t> x0(d, 0); expa(x0.addr()); exp_(x0.get()); try { auto &r = tr_i32(x0.get()); sym_assert((void *)&r == x0.ptr(), "returned-reference"); sym_assert(!d.fail, "ok"); } catch (const rust::Error &e) { sym_assert(d.fail && std::string(e.what()) == "Bad", "err"); } logged();  } break;
    case 14: { auto d = d0.fallible(); Own<int32_t> x0(d, 0); expa(x0.addr()); exp_(x0.get()); try { auto &r = tm_i32(x0.get()); sym_assert((void *)&r == x0.ptr(), "returned-reference"); sym_assert(!d.fail, "ok"); } catch (const rust::Error &e) { sym_assert(d.fail && std::string(e.what()) == "Bad", "err"); } logged(); seen(x0.get(), d); } break;
    case 15: { auto &d = d0; Own<int64_t> x0(d, 0); expa(x0.addr()); exp_(x0.get()); Own<int64_t> x1(d, 1); expa(x1.addr()); exp_(x1.get()); r_i64(x0.get(), x1.get()); logged();  } break;
    case 16: { auto &d = d0; Own<int64_t> x0(d, 0); expa(x0.addr()); exp_(x0.get()); auto x1 = val<uint16_t>(d, 1); exp_(x1); m_i64(x0.get(), std::move(x1)); logged(); seen(x0.get(), d); } break;
    case 17: { auto &d = d0; Own<int64_t> x0(d, 0); expa(x0.addr()); exp_(x0.get()); auto &r = rr_i64(x0.get()); sym_assert((void *)&r == x0.ptr(), "returned-reference"); logged();  } break;
    case 18: { auto &d = d0; Own<int64_t> x0(d, 0); expa(x0.addr()); exp_(x0.get()); auto &r = mm_i64(x0.get()); sym_assert((void *)&r == x0.ptr(), "returned-reference"); logged(); seen(x0.get(), d); } break;
    case 19: { auto d = d0.fallible(); Own<int64_t> x0(d, 0); expa(x0.addr()); exp_(x0.get()); try { auto &r = tr_i64(x0.get()); sym_assert((void *)&r == x0.ptr(), "returned-reference"); sym_assert(!d.fail, "ok"); } catch (const rust::Error &e) { sym_assert(d.fail && std::string(e.what()) == "Bad", "err"); } logged();  } break;
    case 20: { auto d = d0.fallible(); Own<int64_t> x0(d, 0); expa(x0.addr()); exp_(x0.get()); try { auto &r = tm_i64(x0.get()); sym_assert((void *)&r == x0.ptr(), "returned-reference"); sym_assert(!d.fail, "ok"); } catch (const rust::Error &e) { sym_assert(d.fail && std::string(e.what()) == "Bad", "err"); } logged(); seen(x0.get(), d); } break;
    case 21: { auto &d = d0; Own<rust::isize> x0(d, 0); expa(x0.addr()); exp_(x0.get()); Own<rust::isize> x1(d, 1); expa(x1.addr()); exp_(x1.get()); r_isize(x0.get(), x1.get()); logged();  } break;
    case 22: { auto &d = d0; Own<rust::isize> x0(d, 0); expa(x0.addr()); exp_(x0.get()); auto x1 = val<uint16_t>(d, 1); exp_(x1); m_isize(x0.get(), std::move(x1)); logged(); seen(x0.get(), d); } break;
    case 23: { auto &d = d0; Own<rust::isize> x0(d, 0); expa(x0.addr()); exp_(x0.get()); auto &r = rr_isize(x0.get()); sym_assert((void *)&r == x0.ptr(), "returned-reference"); logged();  } break;
} }); }
extern "C" void h_09() { run([](const Data &d0) { switch (sym_choice(24, "function")) {
    case 0: { auto &d = d0; Own<rust::isize> x0(d, 0); expa(x0.addr()); exp_(x0.get()); auto &r = mm_isize(x0.get()); sym_assert((void *)&r == x0.ptr(), "returned-reference"); logged(); seen(x0.get(), d); } break;
    case 1: { auto d = d0.fallible(); Own<rust::isize> x0(d, 0); expa(x0.addr()); exp_(x0.get()); try { auto &r = tr_isize(x0.get()); sym_assert((void *)&r == x0.ptr(), "returned-reference"); sym_assert(!d.fail, "ok"); } catch (const rust::Error &e) { sym_assert(d.fail && std::string(e.what()) == "Bad", "err"); } logged();  } break;
    case 2: { auto d = d0.fallible(); Own<rust::isize> x0(d, 0); expa(x0.addr()); exp_(x0.get()); try { auto &r = tm_isize(x0.get()); sym_assert((void *)&r == x0.ptr(), "returned-reference"); sym_assert(!d.fail, "ok"); } catch (const rust::Error &e) { sym_assert(d.fail && std::string(e.what()) == "Bad", "err"); } logged(); seen(x0.get(), d); } break;
    case 3: { auto &d = d0; Own<float> x0(d, 0); expa(x0.addr()); exp_(x0.get()); Own<float> x1(d, 1); expa(x1.addr()); exp_(x1.get()); r_f32(x0.get(), x1.get()); logged();  } break;
    case 4: { auto &d = d0; Own<float> x0(d, 0); expa(x0.addr()); exp_(x0.get()); auto x1 = val<uint16_t>(d, 1); exp_(x1); m_f32(x0.get(), std::move(x1)); logged(); seen(x0.get(), d); } break;
    case 5: { auto &d = d0; Own<float> x0(d, 0); expa(x0.addr()); exp_(x0.get()); auto &r = rr_f32(x0.get()); sym_assert((void *)&r == x0.ptr(), "returned-reference"); logged();  } break;
    case 6: { auto &d = d0; Own<float> x0(d, 0); expa(x0.addr()); exp_(x0.get()); auto &r = mm_f32(x0.get()); sym_assert((void *)&r == x0.ptr(), "returned-reference"); logged(); seen(x0.get(), d); } break;
    case 7: { auto d = d0.fallible(); Own<float> x0(d, 0); expa(x0.addr()); exp_(x0.get()); try { auto &r = tr_f32(x0.get()); sym_assert((void *)&r == x0.ptr(), "returned-reference"); sym_assert(!d.fail, "ok"); } catch (const rust::Error &e) { sym_assert(d.fail && std::string(e.what()) == "Bad", "err"); } logged();  } break;
    case 8: { auto d = d0.fallible(); Own<float> x0(d, 0); expa(x0.addr()); exp_(x0.get()); try { auto &r = tm_f32(x0.get()); sym_assert((void *)&r == x0.ptr(), "returned-reference"); sym_assert(!d.fail, "ok"); } catch (const rust::Error &e) { sym_assert(d.fail && std::string(e.what()) == "Bad", "err"); } logged(); seen(x0.get(), d); } break;
    case 9: { auto &d = d0; Own<double> x0(d, 0); expa(x0.addr()); exp_(x0.get()); Own<double> x1(d, 1); expa(x1.addr()); exp_(x1.get()); r_f64(x0.get(), x1.get()); logged();  } break;
    case 10: { auto &d = d0; Own<double> x0(d, 0); expa(x0.addr()); exp_(x0.get()); auto x1 = val<uint16_t>(d, 1); exp_(x1); m_f64(x0.get(), std::move(x1)); logged(); seen(x0.get(), d); } break;
    case 11: { auto &d = d0; Own<double> x0(d, 0); expa(x0.addr()); exp_(x0.get()); auto &r = rr_f64(x0.get()); sym_assert((void *)&r == x0.ptr(), "returned-reference"); logged();  } break;
    case 12: { auto &d = d0; Own<double> x0(d, 0); expa(x0.addr()); exp_(x0.get()); auto &r = mm_f64(x0.get()); sym_assert((void *)&r == x0.ptr(), "returned-reference"); logged(); seen(x0.get(), d); } break;
    case 13: { auto d = d0.fallible(); Own<double> x0(d, 0); expa(x0.addr()); exp_(x0.get()); try { auto &r = tr_f64(x0.get()); sym_assert((void *)&r == x0.ptr(), "returned-reference"); sym_assert(!d.fail, "ok"); } catch (const rust::Error &e) { sym_assert(d.fail && std::string(e.what()) == "Bad", "err"); } logged();  } break;
    case 14: { auto d = d0.fallible(); Own<double> x0(d, 0); expa(x0.addr()); exp_(x0.get()); try { auto &r = tm_f64(x0.get()); sym_assert((void *)&r == x0.ptr(), "returned-reference"); sym_assert(!d.fail, "ok"); } catch (const rust::Error &e) { sym_assert(d.fail && std::string(e.what()) == "Bad", "err"); } logged(); seen(x0.get(), d); } break;
    case 15: { auto &d = d0; Own<rust::String> x0(d, 0); expa(x0.addr()); exp_(x0.get()); Own<rust::String> x1(d, 1); expa(x1.addr()); exp_(x1.get()); r_string(x0.get(), x1.get()); logged();  } break;
    case 16: { auto &d = d0; Own<rust::String> x0(d, 0); expa(x0.addr()); exp_(x0.get()); auto x1 = val<uint16_t>(d, 1); exp_(x1); m_string(x0.get(), std::move(x1)); logged(); seen(x0.get(), d); } break;
    case 17: { auto &d = d0; Own<rust::String> x0(d, 0); expa(x0.addr()); exp_(x0.get()); auto &r = rr_string(x0.get()); sym_assert((void *)&r == x0.ptr(), "returned-reference"); logged();  } break;
    case 18: { auto &d = d0; Own<rust::String> x0(d, 0); expa(x0.addr()); exp_(x0.get()); auto &r = mm_string(x0.get()); sym_assert((void *)&r == x0.ptr(), "returned-reference"); logged(); seen(x0.get(), d); } break;
    case 19: { auto d = d0.fallible(); Own<rust::String> x0(d, 0); expa(x0.addr()); exp_(x0.get()); try { auto &r = tr_string(x0.get()); sym_assert((void *)&r == x0.ptr(), "returned-reference"); sym_assert(!d.fail, "ok"); } catch (const rust::Error &e) { sym_assert(d.fail && std::string(e.what()) == "Bad", "err"); } logged();  } break;
    case 20: { auto d = d0.fallible(); Own<rust::String> x0(d, 0); expa(x0.addr()); exp_(x0.get()); try { auto &r = tm_string(x0.get()); sym_assert((void *)&r == x0.ptr(), "returned-reference"); sym_assert(!d.fail, "ok"); } catch (const rust::Error &e) { sym_assert(d.fail && std::string(e.what()) == "Bad", "err"); } logged(); seen(x0.get(), d); } break;
    case 21: { auto &d = d0; Own<rust::Box<R>> x0(d, 0); expa(x0.addr()); exp_(x0.get()); Own<rust::Box<R>> x1(d, 1); expa(x1.addr()); exp_(x1.get()); r_box(x0.get(), x1.get()); logged();  } break;
    case 22: { auto &d = d0; Own<rust::Box<R>> x0(d, 0); expa(x0.addr()); exp_(x0.get()); auto x1 = val<uint16_t>(d, 1); exp_(x1); m_box(x0.get(), std::move(x1)); logged(); seen(x0.get(), d); } break;
    case 23: { auto &d = d0; Own<rust::Box<R>> x0(d, 0); expa(x0.addr()); exp_(x0.get()); auto &r = rr_box(x0.get()); sym_assert((void *)&r == x0.ptr(), "returned-reference"); logged();  } break;
} }); }
extern "C" void h_10() { run([](const Data &d0) { switch (sym_choice(24, "function")) {
    case 0: { auto &d = d0; Own<rust::Box<R>> x0(d, 0); expa(x0.addr()); exp_(x0.get()); auto &r = mm_box(x0.get()); sym_assert((void *)&r == x0.ptr(), "returned-reference"); logged(); seen(x0.get(), d); } break;
    case 1: { auto d = d0.fallible(); Own<rust::Box<R>> x0(d, 0); expa(x0.addr()); exp_(x0.get()); try { auto &r = tr_box(x0.get()); sym_assert((void *)&r == x0.ptr(), "returned-reference"); sym_assert(!d.fail, "ok"); } catch (const rust::Error &e) { sym_assert(d.fail && std::string(e.what()) == "Bad", "err"); } logged();  } break;
    case 2: { auto d = d0.fallible(); Own<rust::Box<R>> x0(d, 0); expa(x0.addr()); exp_(x0.get()); try { auto &r = tm_box(x0.get()); sym_assert((void *)&r == x0.ptr(), "returned-reference"); sym_assert(!d.fail, "ok"); } catch (const rust::Error &e) { sym_assert(d.fail && std::string(e.what()) == "Bad", "err"); } logged(); seen(x0.get(), d); } break;
    case 3: { auto &d = d0; Own<rust::Box<N>> x0(d, 0); expa(x0.addr()); exp_(x0.get()); Own<rust::Box<N>> x1(d, 1); expa(x1.addr()); exp_(x1.get()); r_boxn(x0.get(), x1.get()); logged();  } break;
    case 4: { auto &d = d0; Own<rust::Box<N>> x0(d, 0); expa(x0.addr()); exp_(x0.get()); auto x1 = val<uint16_t>(d, 1); exp_(x1); m_boxn(x0.get(), std::move(x1)); logged(); seen(x0.get(), d); } break;
    case 5: { auto &d = d0; Own<rust::Box<N>> x0(d, 0); expa(x0.addr()); exp_(x0.get()); auto &r = rr_boxn(x0.get()); sym_assert((void *)&r == x0.ptr(), "returned-reference"); logged();  } break;
    case 6: { auto &d = d0; Own<rust::Box<N>> x0(d, 0); expa(x0.addr()); exp_(x0.get()); auto &r = mm_boxn(x0.get()); sym_assert((void *)&r == x0.ptr(), "returned-reference"); logged(); seen(x0.get(), d); } break;
    case 7: { auto d = d0.fallible(); Own<rust::Box<N>> x0(d, 0); expa(x0.addr()); exp_(x0.get()); try { auto &r = tr_boxn(x0.get()); sym_assert((void *)&r == x0.ptr(), "returned-reference"); sym_assert(!d.fail, "ok"); } catch (const rust::Error &e) { sym_assert(d.fail && std::string(e.what()) == "Bad", "err"); } logged();  } break;
    case 8: { auto d = d0.fallible(); Own<rust::Box<N>> x0(d, 0); expa(x0.addr()); exp_(x0.get()); try { auto &r = tm_boxn(x0.get()); sym_assert((void *)&r == x0.ptr(), "returned-reference"); sym_assert(!d.fail, "ok"); } catch (const rust::Error &e) { sym_assert(d.fail && std::string(e.what()) == "Bad", "err"); } logged(); seen(x0.get(), d); } break;
    case 9: { auto &d = d0; Own<rust::Vec<uint8_t>> x0(d, 0); expa(x0.addr()); exp_(x0.get()); Own<rust::Vec<uint8_t>> x1(d, 1); expa(x1.addr()); exp_(x1.get()); r_vu8(x0.get(), x1.get()); logged();  } break;
    case 10: { auto &d = d0; Own<rust::Vec<uint8_t>> x0(d, 0); expa(x0.addr()); exp_(x0.get()); auto x1 = val<uint16_t>(d, 1); exp_(x1); m_vu8(x0.get(), std::move(x1)); logged(); seen(x0.get(), d); } break;
    case 11: { auto &d = d0; Own<rust::Vec<uint8_t>> x0(d, 0); expa(x0.addr()); exp_(x0.get()); auto &r = rr_vu8(x0.get()); sym_assert((void *)&r == x0.ptr(), "returned-reference"); logged();  } break;
    case 12: { auto &d = d0; Own<rust::Vec<uint8_t>> x0(d, 0); expa(x0.addr()); exp_(x0.get()); auto &r = mm_vu8(x0.get()); sym_assert((void *)&r == x0.ptr(), "returned-reference"); logged(); seen(x0.get(), d); } break;
    case 13: { auto d = d0.fallible(); Own<rust::Vec<uint8_t>> x0(d, 0); expa(x0.addr()); exp_(x0.get()); try { auto &r = tr_vu8(x0.get()); sym_assert((void *)&r == x0.ptr(), "returned-reference"); sym_assert(!d.fail, "ok"); } catch (const rust::Error &e) { sym_assert(d.fail && std::string(e.what()) == "Bad", "err"); } logged();  } break;
    case 14: { auto d = d0.fallible(); Own<rust::Vec<uint8_t>> x0(d, 0); expa(x0.addr()); exp_(x0.get()); try { auto &r = tm_vu8(x0.get()); sym_assert((void *)&r == x0.ptr(), "returned-reference"); sym_assert(!d.fail, "ok"); } catch (const rust::Error &e) { sym_assert(d.fail && std::string(e.what()) == "Bad", "err"); } logged(); seen(x0.get(), d); } break;
    case 15: { auto &d = d0; Own<rust::Vec<bool>> x0(d, 0); expa(x0.addr()); exp_(x0.get()); Own<rust::Vec<bool>> x1(d, 1); expa(x1.addr()); exp_(x1.get()); r_vbool(x0.get(), x1.get()); logged();  } break;
    case 16: { auto &d = d0; Own<rust::Vec<bool>> x0(d, 0); expa(x0.addr()); exp_(x0.get()); auto x1 = val<uint16_t>(d, 1); exp_(x1); m_vbool(x0.get(), std::move(x1)); logged(); seen(x0.get(), d); } break;
    case 17: { auto &d = d0; Own<rust::Vec<bool>> x0(d, 0); expa(x0.addr()); exp_(x0.get()); auto &r = rr_vbool(x0.get()); sym_assert((void *)&r == x0.ptr(), "returned-reference"); logged();  } break;
    case 18: { auto &d = d0; Own<rust::Vec<bool>> x0(d, 0); expa(x0.addr()); exp_(x0.get()); auto &r = mm_vbool(x0.get()); sym_assert((void *)&r == x0.ptr(), "returned-reference"); logged(); seen(x0.get(), d); } break;
    case 19: { auto d = d0.fallible(); Own<rust::Vec<bool>> x0(d, 0); expa(x0.addr()); exp_(x0.get()); try { auto &r = tr_vbool(x0.get()); sym_assert((void *)&r == x0.ptr(), "returned-reference"); sym_assert(!d.fail, "ok"); } catch (const rust::Error &e) { sym_assert(d.fail && std::string(e.what()) == "Bad", "err"); } logged();  } break;
    case 20: { auto d = d0.fallible(); Own<rust::Vec<bool>> x0(d, 0); expa(x0.addr()); exp_(x0.get()); try { auto &r = tm_vbool(x0.get()); sym_assert((void *)&r == x0.ptr(), "returned-reference"); sym_assert(!d.fail, "ok"); } catch (const rust::Error &e) { sym_assert(d.fail && std::string(e.what()) == "Bad", "err"); } logged(); seen(x0.get(), d); } break;
    case 21: { auto &d = d0; Own<rust::Vec<double>> x0(d, 0); expa(x0.addr()); exp_(x0.get()); Own<rust::Vec<double>> x1(d, 1); expa(x1.addr()); exp_(x1.get()); r_vf64(x0.get(), x1.get()); logged();  } break;
    case 22: { auto &d = d0; Own<rust::Vec<double>> x0(d, 0); expa(x0.addr()); exp_(x0.get()); auto x1 = val<uint16_t>(d, 1); exp_(x1); m_vf64(x0.get(), std::move(x1)); logged(); seen(x0.get(), d); } break;
    case 23: { auto &d = d0; Own<rust::Vec<double>> x0(d, 0); expa(x0.addr()); exp_(x0.get()); auto &r = rr_vf64(x0.get()); sym_assert((void *)&r == x0.ptr(), "returned-reference"); logged();  } break;
} }); }
extern "C" void h_11() { run([](const Data &d0) { switch (sym_choice(24, "function")) {
    case 0: { auto &d = d0; Own<rust::Vec<double>> x0(d, 0); expa(x0.addr()); exp_(x0.get()); auto &r = mm_vf64(x0.get()); sym_assert((void *)&r == x0.ptr(), "returned-reference"); logged(); seen(x0.get(), d); } break;
    case 1: { auto d = d0.fallible(); Own<rust::Vec<double>> x0(d, 0); expa(x0.addr()); exp_(x0.get()); try { auto &r = tr_vf64(x0.get()); sym_assert((void *)&r == x0.ptr(), "returned-reference"); sym_assert(!d.fail, "ok"); } catch (const rust::Error &e) { sym_assert(d.fail && std::string(e.what()) == "Bad", "err"); } logged();  } break;
    case 2: { auto d = d0.fallible(); Own<rust::Vec<double>> x0(d, 0); expa(x0.addr()); exp_(x0.get()); try { auto &r = tm_vf64(x0.get()); sym_assert((void *)&r == x0.ptr(), "returned-reference"); sym_assert(!d.fail, "ok"); } catch (const rust::Error &e) { sym_assert(d.fail && std::string(e.what()) == "Bad", "err"); } logged(); seen(x0.get(), d); } break;
    case 3: { auto &d = d0; Own<rust::Vec<rust::String>> x0(d, 0); expa(x0.addr()); exp_(x0.get()); Own<rust::Vec<rust::String>> x1(d, 1); expa(x1.addr()); exp_(x1.get()); r_vstring(x0.get(), x1.get()); logged();  } break;
    case 4: { auto &d = d0; Own<rust::Vec<rust::String>> x0(d, 0); expa(x0.addr()); exp_(x0.get()); auto x1 = val<uint16_t>(d, 1); exp_(x1); m_vstring(x0.get(), std::move(x1)); logged(); seen(x0.get(), d); } break;
    case 5: { auto &d = d0; Own<rust::Vec<rust::String>> x0(d, 0); expa(x0.addr()); exp_(x0.get()); auto &r = rr_vstring(x0.get()); sym_assert((void *)&r == x0.ptr(), "returned-reference"); logged();  } break;
    case 6: { auto &d = d0; Own<rust::Vec<rust::String>> x0(d, 0); expa(x0.addr()); exp_(x0.get()); auto &r = mm_vstring(x0.get()); sym_assert((void *)&r == x0.ptr(), "returned-reference"); logged(); seen(x0.get(), d); } break;
    case 7: { auto d = d0.fallible(); Own<rust::Vec<rust::String>> x0(d, 0); expa(x0.addr()); exp_(x0.get()); try { auto &r = tr_vstring(x0.get()); sym_assert((void *)&r == x0.ptr(), "returned-reference"); sym_assert(!d.fail, "ok"); } catch (const rust::Error &e) { sym_assert(d.fail && std::string(e.what()) == "Bad", "err"); } logged();  } break;
    case 8: { auto d = d0.fallible(); Own<rust::Vec<rust::String>> x0(d, 0); expa(x0.addr()); exp_(x0.get()); try { auto &r = tm_vstring(x0.get()); sym_assert((void *)&r == x0.ptr(), "returned-reference"); sym_assert(!d.fail, "ok"); } catch (const rust::Error &e) { sym_assert(d.fail && std::string(e.what()) == "Bad", "err"); } logged(); seen(x0.get(), d); } break;
    case 9: { auto &d = d0; Own<rust::Vec<P2>> x0(d, 0); expa(x0.addr()); exp_(x0.get()); Own<rust::Vec<P2>> x1(d, 1); expa(x1.addr()); exp_(x1.get()); r_vp2(x0.get(), x1.get()); logged();  } break;
    case 10: { auto &d = d0; Own<rust::Vec<P2>> x0(d, 0); expa(x0.addr()); exp_(x0.get()); auto x1 = val<uint16_t>(d, 1); exp_(x1); m_vp2(x0.get(), std::move(x1)); logged(); seen(x0.get(), d); } break;
    case 11: { auto &d = d0; Own<rust::Vec<P2>> x0(d, 0); expa(x0.addr()); exp_(x0.get()); auto &r = rr_vp2(x0.get()); sym_assert((void *)&r == x0.ptr(), "returned-reference"); logged();  } break;
    case 12: { auto &d = d0; Own<rust::Vec<P2>> x0(d, 0); expa(x0.addr()); exp_(x0.get()); auto &r = mm_vp2(x0.get()); sym_assert((void *)&r == x0.ptr(), "returned-reference"); logged(); seen(x0.get(), d); } break;
    case 13: { auto d = d0.fallible(); Own<rust::Vec<P2>> x0(d, 0); expa(x0.addr()); exp_(x0.get()); try { auto &r = tr_vp2(x0.get()); sym_assert((void *)&r == x0.ptr(), "returned-reference"); sym_assert(!d.fail, "ok"); } catch (const rust::Error &e) { sym_assert(d.fail && std::string(e.what()) == "Bad", "err"); } logged();  } break;
    case 14: { auto d = d0.fallible(); Own<rust::Vec<P2>> x0(d, 0); expa(x0.addr()); exp_(x0.get()); try { auto &r = tm_vp2(x0.get()); sym_assert((void *)&r == x0.ptr(), "returned-reference"); sym_assert(!d.fail, "ok"); } catch (const rust::Error &e) { sym_assert(d.fail && std::string(e.what()) == "Bad", "err"); } logged(); seen(x0.get(), d); } break;
    case 15: { auto &d = d0; Own<rust::Vec<N>> x0(d, 0); expa(x0.addr()); exp_(x0.get()); Own<rust::Vec<N>> x1(d, 1); expa(x1.addr()); exp_(x1.get()); r_vn(x0.get(), x1.get()); logged();  } break;
    case 16: { auto &d = d0; Own<rust::Vec<N>> x0(d, 0); expa(x0.addr()); exp_(x0.get()); auto x1 = val<uint16_t>(d, 1); exp_(x1); m_vn(x0.get(), std::move(x1)); logged(); seen(x0.get(), d); } break;
    case 17: { auto &d = d0; Own<rust::Vec<N>> x0(d, 0); expa(x0.addr()); exp_(x0.get()); auto &r = rr_vn(x0.get()); sym_assert((void *)&r == x0.ptr(), "returned-reference"); logged();  } break;
    case 18: { auto &d = d0; Own<rust::Vec<N>> x0(d, 0); expa(x0.addr()); exp_(x0.get()); auto &r = mm_vn(x0.get()); sym_assert((void *)&r == x0.ptr(), "returned-reference"); logged(); seen(x0.get(), d); } break;
    case 19: { auto d = d0.fallible(); Own<rust::Vec<N>> x0(d, 0); expa(x0.addr()); exp_(x0.get()); try { auto &r = tr_vn(x0.get()); sym_assert((void *)&r == x0.ptr(), "returned-reference"); sym_assert(!d.fail, "ok"); } catch (const rust::Error &e) { sym_assert(d.fail && std::string(e.what()) == "Bad", "err"); } logged();  } break;
    case 20: { auto d = d0.fallible(); Own<rust::Vec<N>> x0(d, 0); expa(x0.addr()); exp_(x0.get()); try { auto &r = tm_vn(x0.get()); sym_assert((void *)&r == x0.ptr(), "returned-reference"); sym_assert(!d.fail, "ok"); } catch (const rust::Error &e) { sym_assert(d.fail && std::string(e.what()) == "Bad", "err"); } logged(); seen(x0.get(), d); } break;
    case 21: { auto &d = d0; Own<rust::Vec<R>> x0(d, 0); expa(x0.addr()); exp_(x0.get()); Own<rust::Vec<R>> x1(d, 1); expa(x1.addr()); exp_(x1.get()); r_vr(x0.get(), x1.get()); logged();  } break;
    case 22: { auto &d = d0; Own<rust::Vec<R>> x0(d, 0); expa(x0.addr()); exp_(x0.get()); auto x1 = val<uint16_t>(d, 1); exp_(x1); m_vr(x0.get(), std::move(x1)); logged(); seen(x0.get(), d); } break;
    case 23: { auto &d = d0; Own<rust::Vec<R>> x0(d, 0); expa(x0.addr()); exp_(x0.get()); auto &r = rr_vr(x0.get()); sym_assert((void *)&r == x0.ptr(), "returned-reference"); logged();  } break;
} }); }
extern "C" void h_12() { run([](const Data &d0) { switch (sym_choice(24, "function")) {
    case 0: { auto &d = d0; Own<rust::Vec<R>> x0(d, 0); expa(x0.addr()); exp_(x0.get()); auto &r = mm_vr(x0.get()); sym_assert((void *)&r == x0.ptr(), "returned-reference"); logged(); seen(x0.get(), d); } break;
    case 1: { auto d = d0.fallible(); Own<rust::Vec<R>> x0(d, 0); expa(x0.addr()); exp_(x0.get()); try { auto &r = tr_vr(x0.get()); sym_assert((void *)&r == x0.ptr(), "returned-reference"); sym_assert(!d.fail, "ok"); } catch (const rust::Error &e) { sym_assert(d.fail && std::string(e.what()) == "Bad", "err"); } logged();  } break;
    case 2: { auto d = d0.fallible(); Own<rust::Vec<R>> x0(d, 0); expa(x0.addr()); exp_(x0.get()); try { auto &r = tm_vr(x0.get()); sym_assert((void *)&r == x0.ptr(), "returned-reference"); sym_assert(!d.fail, "ok"); } catch (const rust::Error &e) { sym_assert(d.fail && std::string(e.what()) == "Bad", "err"); } logged(); seen(x0.get(), d); } break;
    case 3: { auto &d = d0; Own<std::unique_ptr<C>> x0(d, 0); expa(x0.addr()); exp_(x0.get()); Own<std::unique_ptr<C>> x1(d, 1); expa(x1.addr()); exp_(x1.get()); r_uobj(x0.get(), x1.get()); logged();  } break;
    case 4: { auto &d = d0; Own<std::unique_ptr<C>> x0(d, 0); expa(x0.addr()); exp_(x0.get()); auto x1 = val<uint16_t>(d, 1); exp_(x1); m_uobj(x0.get(), std::move(x1)); logged(); seen(x0.get(), d); } break;
    case 5: { auto &d = d0; Own<std::unique_ptr<C>> x0(d, 0); expa(x0.addr()); exp_(x0.get()); auto &r = rr_uobj(x0.get()); sym_assert((void *)&r == x0.ptr(), "returned-reference"); logged();  } break;
    case 6: { auto &d = d0; Own<std::unique_ptr<C>> x0(d, 0); expa(x0.addr()); exp_(x0.get()); auto &r = mm_uobj(x0.get()); sym_assert((void *)&r == x0.ptr(), "returned-reference"); logged(); seen(x0.get(), d); } break;
    case 7: { auto d = d0.fallible(); Own<std::unique_ptr<C>> x0(d, 0); expa(x0.addr()); exp_(x0.get()); try { auto &r = tr_uobj(x0.get()); sym_assert((void *)&r == x0.ptr(), "returned-reference"); sym_assert(!d.fail, "ok"); } catch (const rust::Error &e) { sym_assert(d.fail && std::string(e.what()) == "Bad", "err"); } logged();  } break;
    case 8: { auto d = d0.fallible(); Own<std::unique_ptr<C>> x0(d, 0); expa(x0.addr()); exp_(x0.get()); try { auto &r = tm_uobj(x0.get()); sym_assert((void *)&r == x0.ptr(), "returned-reference"); sym_assert(!d.fail, "ok"); } catch (const rust::Error &e) { sym_assert(d.fail && std::string(e.what()) == "Bad", "err"); } logged(); seen(x0.get(), d); } break;
    case 9: { auto &d = d0; Own<std::unique_ptr<std::string>> x0(d, 0); expa(x0.addr()); exp_(x0.get()); Own<std::unique_ptr<std::string>> x1(d, 1); expa(x1.addr()); exp_(x1.get()); r_ustr(x0.get(), x1.get()); logged();  } break;
    case 10: { auto &d = d0; Own<std::unique_ptr<std::string>> x0(d, 0); expa(x0.addr()); exp_(x0.get()); auto x1 = val<uint16_t>(d, 1); exp_(x1); m_ustr(x0.get(), std::move(x1)); logged(); seen(x0.get(), d); } break;
    case 11: { auto &d = d0; Own<std::unique_ptr<std::string>> x0(d, 0); expa(x0.addr()); exp_(x0.get()); auto &r = rr_ustr(x0.get()); sym_assert((void *)&r == x0.ptr(), "returned-reference"); logged();  } break;
    case 12: { auto &d = d0; Own<std::unique_ptr<std::string>> x0(d, 0); expa(x0.addr()); exp_(x0.get()); auto &r = mm_ustr(x0.get()); sym_assert((void *)&r == x0.ptr(), "returned-reference"); logged(); seen(x0.get(), d); } break;
    case 13: { auto d = d0.fallible(); Own<std::unique_ptr<std::string>> x0(d, 0); expa(x0.addr()); exp_(x0.get()); try { auto &r = tr_ustr(x0.get()); sym_assert((void *)&r == x0.ptr(), "returned-reference"); sym_assert(!d.fail, "ok"); } catch (const rust::Error &e) { sym_assert(d.fail && std::string(e.what()) == "Bad", "err"); } logged();  } break;
    case 14: { auto d = d0.fallible(); Own<std::unique_ptr<std::string>> x0(d, 0); expa(x0.addr()); exp_(x0.get()); try { auto &r = tm_ustr(x0.get()); sym_assert((void *)&r == x0.ptr(), "returned-reference"); sym_assert(!d.fail, "ok"); } catch (const rust::Error &e) { sym_assert(d.fail && std::string(e.what()) == "Bad", "err"); } logged(); seen(x0.get(), d); } break;
    case 15: { auto &d = d0; Own<std::unique_ptr<std::vector<uint32_t>>> x0(d, 0); expa(x0.addr()); exp_(x0.get()); Own<std::unique_ptr<std::vector<uint32_t>>> x1(d, 1); expa(x1.addr()); exp_(x1.get()); r_uvec(x0.get(), x1.get()); logged();  } break;
    case 16: { auto &d = d0; Own<std::unique_ptr<std::vector<uint32_t>>> x0(d, 0); expa(x0.addr()); exp_(x0.get()); auto x1 = val<uint16_t>(d, 1); exp_(x1); m_uvec(x0.get(), std::move(x1)); logged(); seen(x0.get(), d); } break;
    case 17: { auto &d = d0; Own<std::unique_ptr<std::vector<uint32_t>>> x0(d, 0); expa(x0.addr()); exp_(x0.get()); auto &r = rr_uvec(x0.get()); sym_assert((void *)&r == x0.ptr(), "returned-reference"); logged();  } break;
    case 18: { auto &d = d0; Own<std::unique_ptr<std::vector<uint32_t>>> x0(d, 0); expa(x0.addr()); exp_(x0.get()); auto &r = mm_uvec(x0.get()); sym_assert((void *)&r == x0.ptr(), "returned-reference"); logged(); seen(x0.get(), d); } break;
    case 19: { auto d = d0.fallible(); Own<std::unique_ptr<std::vector<uint32_t>>> x0(d, 0); expa(x0.addr()); exp_(x0.get()); try { auto &r = tr_uvec(x0.get()); sym_assert((void *)&r == x0.ptr(), "returned-reference"); sym_assert(!d.fail, "ok"); } catch (const rust::Error &e) { sym_assert(d.fail && std::string(e.what()) == "Bad", "err"); } logged();  } break;
    case 20: { auto d = d0.fallible(); Own<std::unique_ptr<std::vector<uint32_t>>> x0(d, 0); expa(x0.addr()); exp_(x0.get()); try { auto &r = tm_uvec(x0.get()); sym_assert((void *)&r == x0.ptr(), "returned-reference"); sym_assert(!d.fail, "ok"); } catch (const rust::Error &e) { sym_assert(d.fail && std::string(e.what()) == "Bad", "err"); } logged(); seen(x0.get(), d); } break;
    case 21: { auto &d = d0; Own<std::unique_ptr<N>> x0(d, 0); expa(x0.addr()); exp_(x0.get()); Own<std::unique_ptr<N>> x1(d, 1); expa(x1.addr()); exp_(x1.get()); r_un(x0.get(), x1.get()); logged();  } break;
    case 22: { auto &d = d0; Own<std::unique_ptr<N>> x0(d, 0); expa(x0.addr()); exp_(x0.get()); auto x1 = val<uint16_t>(d, 1); exp_(x1); m_un(x0.get(), std::move(x1)); logged(); seen(x0.get(), d); } break;
    case 23: { auto &d = d0; Own<std::unique_ptr<N>> x0(d, 0); expa(x0.addr()); exp_(x0.get()); auto &r = rr_un(x0.get()); sym_assert((void *)&r == x0.ptr(), "returned-reference"); logged();  } break;
} }); }
extern "C" void h_13() { run([](const Data &d0) { switch (sym_choice(24, "function")) {
    case 0: { auto &d = d0; Own<std::unique_ptr<N>> x0(d, 0); expa(x0.addr()); exp_(x0.get()); auto &r = mm_un(x0.get()); sym_assert((void *)&r == x0.ptr(), "returned-reference"); logged(); seen(x0.get(), d); } break;
    case 1: { auto d = d0.fallible(); Own<std::unique_ptr<N>> x0(d, 0); expa(x0.addr()); exp_(x0.get()); try { auto &r = tr_un(x0.get()); sym_assert((void *)&r == x0.ptr(), "returned-reference"); sym_assert(!d.fail, "ok"); } catch (const rust::Error &e) { sym_assert(d.fail && std::string(e.what()) == "Bad", "err"); } logged();  } break;
    case 2: { auto d = d0.fallible(); Own<std::unique_ptr<N>> x0(d, 0); expa(x0.addr()); exp_(x0.get()); try { auto &r = tm_un(x0.get()); sym_assert((void *)&r == x0.ptr(), "returned-reference"); sym_assert(!d.fail, "ok"); } catch (const rust::Error &e) { sym_assert(d.fail && std::string(e.what()) == "Bad", "err"); } logged(); seen(x0.get(), d); } break;
    case 3: { auto &d = d0; Own<std::shared_ptr<C>> x0(d, 0); expa(x0.addr()); exp_(x0.get()); Own<std::shared_ptr<C>> x1(d, 1); expa(x1.addr()); exp_(x1.get()); r_sobj(x0.get(), x1.get()); logged();  } break;
    case 4: { auto &d = d0; Own<std::shared_ptr<C>> x0(d, 0); expa(x0.addr()); exp_(x0.get()); auto x1 = val<uint16_t>(d, 1); exp_(x1); m_sobj(x0.get(), std::move(x1)); logged(); seen(x0.get(), d); } break;
    case 5: { auto &d = d0; Own<std::shared_ptr<C>> x0(d, 0); expa(x0.addr()); exp_(x0.get()); auto &r = rr_sobj(x0.get()); sym_assert((void *)&r == x0.ptr(), "returned-reference"); logged();  } break;
    case 6: { auto &d = d0; Own<std::shared_ptr<C>> x0(d, 0); expa(x0.addr()); exp_(x0.get()); auto &r = mm_sobj(x0.get()); sym_assert((void *)&r == x0.ptr(), "returned-reference"); logged(); seen(x0.get(), d); } break;
    case 7: { auto d = d0.fallible(); Own<std::shared_ptr<C>> x0(d, 0); expa(x0.addr()); exp_(x0.get()); try { auto &r = tr_sobj(x0.get()); sym_assert((void *)&r == x0.ptr(), "returned-reference"); sym_assert(!d.fail, "ok"); } catch (const rust::Error &e) { sym_assert(d.fail && std::string(e.what()) == "Bad", "err"); } logged();  } break;
    case 8: { auto d = d0.fallible(); Own<std::shared_ptr<C>> x0(d, 0); expa(x0.addr()); exp_(x0.get()); try { auto &r = tm_sobj(x0.get()); sym_assert((void *)&r == x0.ptr(), "returned-reference"); sym_assert(!d.fail, "ok"); } catch (const rust::Error &e) { sym_assert(d.fail && std::string(e.what()) == "Bad", "err"); } logged(); seen(x0.get(), d); } break;
    case 9: { auto &d = d0; Own<std::shared_ptr<uint64_t>> x0(d, 0); expa(x0.addr()); exp_(x0.get()); Own<std::shared_ptr<uint64_t>> x1(d, 1); expa(x1.addr()); exp_(x1.get()); r_su64(x0.get(), x1.get()); logged();  } break;
    case 10: { auto &d = d0; Own<std::shared_ptr<uint64_t>> x0(d, 0); expa(x0.addr()); exp_(x0.get()); auto x1 = val<uint16_t>(d, 1); exp_(x1); m_su64(x0.get(), std::move(x1)); logged(); seen(x0.get(), d); } break;
    case 11: { auto &d = d0; Own<std::shared_ptr<uint64_t>> x0(d, 0); expa(x0.addr()); exp_(x0.get()); auto &r = rr_su64(x0.get()); sym_assert((void *)&r == x0.ptr(), "returned-reference"); logged();  } break;
    case 12: { auto &d = d0; Own<std::shared_ptr<uint64_t>> x0(d, 0); expa(x0.addr()); exp_(x0.get()); auto &r = mm_su64(x0.get()); sym_assert((void *)&r == x0.ptr(), "returned-reference"); logged(); seen(x0.get(), d); } break;
    case 13: { auto d = d0.fallible(); Own<std::shared_ptr<uint64_t>> x0(d, 0); expa(x0.addr()); exp_(x0.get()); try { auto &r = tr_su64(x0.get()); sym_assert((void *)&r == x0.ptr(), "returned-reference"); sym_assert(!d.fail, "ok"); } catch (const rust::Error &e) { sym_assert(d.fail && std::string(e.what()) == "Bad", "err"); } logged();  } break;
    case 14: { auto d = d0.fallible(); Own<std::shared_ptr<uint64_t>> x0(d, 0); expa(x0.addr()); exp_(x0.get()); try { auto &r = tm_su64(x0.get()); sym_assert((void *)&r == x0.ptr(), "returned-reference"); sym_assert(!d.fail, "ok"); } catch (const rust::Error &e) { sym_assert(d.fail && std::string(e.what()) == "Bad", "err"); } logged(); seen(x0.get(), d); } break;
    case 15: { auto &d = d0; Own<std::weak_ptr<C>> x0(d, 0); expa(x0.addr()); exp_(x0.get()); Own<std::weak_ptr<C>> x1(d, 1); expa(x1.addr()); exp_(x1.get()); r_wobj(x0.get(), x1.get()); logged();  } break;
    case 16: { auto &d = d0; Own<std::weak_ptr<C>> x0(d, 0); expa(x0.addr()); exp_(x0.get()); auto x1 = val<uint16_t>(d, 1); exp_(x1); m_wobj(x0.get(), std::move(x1)); logged(); seen(x0.get(), d); } break;
    case 17: { auto &d = d0; Own<std::weak_ptr<C>> x0(d, 0); expa(x0.addr()); exp_(x0.get()); auto &r = rr_wobj(x0.get()); sym_assert((void *)&r == x0.ptr(), "returned-reference"); logged();  } break;
    case 18: { auto &d = d0; Own<std::weak_ptr<C>> x0(d, 0); expa(x0.addr()); exp_(x0.get()); auto &r = mm_wobj(x0.get()); sym_assert((void *)&r == x0.ptr(), "returned-reference"); logged(); seen(x0.get(), d); } break;
    case 19: { auto d = d0.fallible(); Own<std::weak_ptr<C>> x0(d, 0); expa(x0.addr()); exp_(x0.get()); try { auto &r = tr_wobj(x0.get()); sym_assert((void *)&r == x0.ptr(), "returned-reference"); sym_assert(!d.fail, "ok"); } catch (const rust::Error &e) { sym_assert(d.fail && std::string(e.what()) == "Bad", "err"); } logged();  } break;
    case 20: { auto d = d0.fallible(); Own<std::weak_ptr<C>> x0(d, 0); expa(x0.addr()); exp_(x0.get()); try { auto &r = tm_wobj(x0.get()); sym_assert((void *)&r == x0.ptr(), "returned-reference"); sym_assert(!d.fail, "ok"); } catch (const rust::Error &e) { sym_assert(d.fail && std::string(e.what()) == "Bad", "err"); } logged(); seen(x0.get(), d); } break;
    case 21: { auto &d = d0; Own<P1> x0(d, 0); expa(x0.addr()); exp_(x0.get()); Own<P1> x1(d, 1); expa(x1.addr()); exp_(x1.get()); r_p1(x0.get(), x1.get()); logged();  } break;
    case 22: { auto &d = d0; Own<P1> x0(d, 0); expa(x0.addr()); exp_(x0.get()); auto x1 = val<uint16_t>(d, 1); exp_(x1); m_p1(x0.get(), std::move(x1)); logged(); seen(x0.get(), d); } break;
    case 23: { auto &d = d0; Own<P1> x0(d, 0); expa(x0.addr()); exp_(x0.get()); auto &r = rr_p1(x0.get()); sym_assert((void *)&r == x0.ptr(), "returned-reference"); logged();  } break;
} }); }
extern "C" void h_14() { run([](const Data &d0) { switch (sym_choice(24, "function")) {
    case 0: { auto &d = d0; Own<P1> x0(d, 0); expa(x0.addr()); exp_(x0.get()); auto &r = mm_p1(x0.get()); sym_assert((void *)&r == x0.ptr(), "returned-reference"); logged(); seen(x0.get(), d); } break;
    case 1: { auto d = d0.fallible(); Own<P1> x0(d, 0); expa(x0.addr()); exp_(x0.get()); try { auto &r = tr_p1(x0.get()); sym_assert((void *)&r == x0.ptr(), "returned-reference"); sym_assert(!d.fail, "ok"); } catch (const rust::Error &e) { sym_assert(d.fail && std::string(e.what()) == "Bad", "err"); } logged();  } break;
    case 2: { auto d = d0.fallible(); Own<P1> x0(d, 0); expa(x0.addr()); exp_(x0.get()); try { auto &r = tm_p1(x0.get()); sym_assert((void *)&r == x0.ptr(), "returned-reference"); sym_assert(!d.fail, "ok"); } catch (const rust::Error &e) { sym_assert(d.fail && std::string(e.what()) == "Bad", "err"); } logged(); seen(x0.get(), d); } break;
    case 3: { auto &d = d0; Own<P2> x0(d, 0); expa(x0.addr()); exp_(x0.get()); Own<P2> x1(d, 1); expa(x1.addr()); exp_(x1.get()); r_p2(x0.get(), x1.get()); logged();  } break;
    case 4: { auto &d = d0; Own<P2> x0(d, 0); expa(x0.addr()); exp_(x0.get()); auto x1 = val<uint16_t>(d, 1); exp_(x1); m_p2(x0.get(), std::move(x1)); logged(); seen(x0.get(), d); } break;
    case 5: { auto &d = d0; Own<P2> x0(d, 0); expa(x0.addr()); exp_(x0.get()); auto &r = rr_p2(x0.get()); sym_assert((void *)&r == x0.ptr(), "returned-reference"); logged();  } break;
    case 6: { auto &d = d0; Own<P2> x0(d, 0); expa(x0.addr()); exp_(x0.get()); auto &r = mm_p2(x0.get()); sym_assert((void *)&r == x0.ptr(), "returned-reference"); logged(); seen(x0.get(), d); } break;
    case 7: { auto d = d0.fallible(); Own<P2> x0(d, 0); expa(x0.addr()); exp_(x0.get()); try { auto &r = tr_p2(x0.get()); sym_assert((void *)&r == x0.ptr(), "returned-reference"); sym_assert(!d.fail, "ok"); } catch (const rust::Error &e) { sym_assert(d.fail && std::string(e.what()) == "Bad", "err"); } logged();  } break;
    case 8: { auto d = d0.fallible(); Own<P2> x0(d, 0); expa(x0.addr()); exp_(x0.get()); try { auto &r = tm_p2(x0.get()); sym_assert((void *)&r == x0.ptr(), "returned-reference"); sym_assert(!d.fail, "ok"); } catch (const rust::Error &e) { sym_assert(d.fail && std::string(e.what()) == "Bad", "err"); } logged(); seen(x0.get(), d); } break;
    case 9: { auto &d = d0; Own<F2> x0(d, 0); expa(x0.addr()); exp_(x0.get()); Own<F2> x1(d, 1); expa(x1.addr()); exp_(x1.get()); r_f2(x0.get(), x1.get()); logged();  } break;
    case 10: { auto &d = d0; Own<F2> x0(d, 0); expa(x0.addr()); exp_(x0.get()); auto x1 = val<uint16_t>(d, 1); exp_(x1); m_f2(x0.get(), std::move(x1)); logged(); seen(x0.get(), d); } break;
    case 11: { auto &d = d0; Own<F2> x0(d, 0); expa(x0.addr()); exp_(x0.get()); auto &r = rr_f2(x0.get()); sym_assert((void *)&r == x0.ptr(), "returned-reference"); logged();  } break;
    case 12: { auto &d = d0; Own<F2> x0(d, 0); expa(x0.addr()); exp_(x0.get()); auto &r = mm_f2(x0.get()); sym_assert((void *)&r == x0.ptr(), "returned-reference"); logged(); seen(x0.get(), d); } break;
    case 13: { auto d = d0.fallible(); Own<F2> x0(d, 0); expa(x0.addr()); exp_(x0.get()); try { auto &r = tr_f2(x0.get()); sym_assert((void *)&r == x0.ptr(), "returned-reference"); sym_assert(!d.fail, "ok"); } catch (const rust::Error &e) { sym_assert(d.fail && std::string(e.what()) == "Bad", "err"); } logged();  } break;
    case 14: { auto d = d0.fallible(); Own<F2> x0(d, 0); expa(x0.addr()); exp_(x0.get()); try { auto &r = tm_f2(x0.get()); sym_assert((void *)&r == x0.ptr(), "returned-reference"); sym_assert(!d.fail, "ok"); } catch (const rust::Error &e) { sym_assert(d.fail && std::string(e.what()) == "Bad", "err"); } logged(); seen(x0.get(), d); } break;
    case 15: { auto &d = d0; Own<FI> x0(d, 0); expa(x0.addr()); exp_(x0.get()); Own<FI> x1(d, 1); expa(x1.addr()); exp_(x1.get()); r_fi(x0.get(), x1.get()); logged();  } break;
    case 16: { auto &d = d0; Own<FI> x0(d, 0); expa(x0.addr()); exp_(x0.get()); auto x1 = val<uint16_t>(d, 1); exp_(x1); m_fi(x0.get(), std::move(x1)); logged(); seen(x0.get(), d); } break;
    case 17: { auto &d = d0; Own<FI> x0(d, 0); expa(x0.addr()); exp_(x0.get()); auto &r = rr_fi(x0.get()); sym_assert((void *)&r == x0.ptr(), "returned-reference"); logged();  } break;
    case 18: { auto &d = d0; Own<FI> x0(d, 0); expa(x0.addr()); exp_(x0.get()); auto &r = mm_fi(x0.get()); sym_assert((void *)&r == x0.ptr(), "returned-reference"); logged(); seen(x0.get(), d); } break;
    case 19: { auto d = d0.fallible(); Own<FI> x0(d, 0); expa(x0.addr()); exp_(x0.get()); try { auto &r = tr_fi(x0.get()); sym_assert((void *)&r == x0.ptr(), "returned-reference"); sym_assert(!d.fail, "ok"); } catch (const rust::Error &e) { sym_assert(d.fail && std::string(e.what()) == "Bad", "err"); } logged();  } break;
    case 20: { auto d = d0.fallible(); Own<FI> x0(d, 0); expa(x0.addr()); exp_(x0.get()); try { auto &r = tm_fi(x0.get()); sym_assert((void *)&r == x0.ptr(), "returned-reference"); sym_assert(!d.fail, "ok"); } catch (const rust::Error &e) { sym_assert(d.fail && std::string(e.what()) == "Bad", "err"); } logged(); seen(x0.get(), d); } break;
    case 21: { auto &d = d0; Own<Q2> x0(d, 0); expa(x0.addr()); exp_(x0.get()); Own<Q2> x1(d, 1); expa(x1.addr()); exp_(x1.get()); r_q2(x0.get(), x1.get()); logged();  } break;
    case 22: { auto &d = d0; Own<Q2> x0(d, 0); expa(x0.addr()); exp_(x0.get()); auto x1 = val<uint16_t>(d, 1); exp_(x1); m_q2(x0.get(), std::move(x1)); logged(); seen(x0.get(), d); } break;
    case 23: { auto &d = d0; Own<Q2> x0(d, 0); expa(x0.addr()); exp_(x0.get()); auto &r = rr_q2(x0.get()); sym_assert((void *)&r == x0.ptr(), "returned-reference"); logged();  } break;
} }); }
extern "C" void h_15() { run([](const Data &d0) { switch (sym_choice(24, "function")) {
    case 0: { auto &d = d0; Own<Q2> x0(d, 0); expa(x0.addr()); exp_(x0.get()); auto &r = mm_q2(x0.get()); sym_assert((void *)&r == x0.ptr(), "returned-reference"); logged(); seen(x0.get(), d); } break;
    case 1: { auto d = d0.fallible(); Own<Q2> x0(d, 0); expa(x0.addr()); exp_(x0.get()); try { auto &r = tr_q2(x0.get()); sym_assert((void *)&r == x0.ptr(), "returned-reference"); sym_assert(!d.fail, "ok"); } catch (const rust::Error &e) { sym_assert(d.fail && std::string(e.what()) == "Bad", "err"); } logged();  } break;
    case 2: { auto d = d0.fallible(); Own<Q2> x0(d, 0); expa(x0.addr()); exp_(x0.get()); try { auto &r = tm_q2(x0.get()); sym_assert((void *)&r == x0.ptr(), "returned-reference"); sym_assert(!d.fail, "ok"); } catch (const rust::Error &e) { sym_assert(d.fail && std::string(e.what()) == "Bad", "err"); } logged(); seen(x0.get(), d); } break;
    case 3: { auto &d = d0; Own<Q3> x0(d, 0); expa(x0.addr()); exp_(x0.get()); Own<Q3> x1(d, 1); expa(x1.addr()); exp_(x1.get()); r_q3(x0.get(), x1.get()); logged();  } break;
    case 4: { auto &d = d0; Own<Q3> x0(d, 0); expa(x0.addr()); exp_(x0.get()); auto x1 = val<uint16_t>(d, 1); exp_(x1); m_q3(x0.get(), std::move(x1)); logged(); seen(x0.get(), d); } break;
    case 5: { auto &d = d0; Own<Q3> x0(d, 0); expa(x0.addr()); exp_(x0.get()); auto &r = rr_q3(x0.get()); sym_assert((void *)&r == x0.ptr(), "returned-reference"); logged();  } break;
    case 6: { auto &d = d0; Own<Q3> x0(d, 0); expa(x0.addr()); exp_(x0.get()); auto &r = mm_q3(x0.get()); sym_assert((void *)&r == x0.ptr(), "returned-reference"); logged(); seen(x0.get(), d); } break;
    case 7: { auto d = d0.fallible(); Own<Q3> x0(d, 0); expa(x0.addr()); exp_(x0.get()); try { auto &r = tr_q3(x0.get()); sym_assert((void *)&r == x0.ptr(), "returned-reference"); sym_assert(!d.fail, "ok"); } catch (const rust::Error &e) { sym_assert(d.fail && std::string(e.what()) == "Bad", "err"); } logged();  } break;
    case 8: { auto d = d0.fallible(); Own<Q3> x0(d, 0); expa(x0.addr()); exp_(x0.get()); try { auto &r = tm_q3(x0.get()); sym_assert((void *)&r == x0.ptr(), "returned-reference"); sym_assert(!d.fail, "ok"); } catch (const rust::Error &e) { sym_assert(d.fail && std::string(e.what()) == "Bad", "err"); } logged(); seen(x0.get(), d); } break;
    case 9: { auto &d = d0; Own<D4> x0(d, 0); expa(x0.addr()); exp_(x0.get()); Own<D4> x1(d, 1); expa(x1.addr()); exp_(x1.get()); r_d4(x0.get(), x1.get()); logged();  } break;
    case 10: { auto &d = d0; Own<D4> x0(d, 0); expa(x0.addr()); exp_(x0.get()); auto x1 = val<uint16_t>(d, 1); exp_(x1); m_d4(x0.get(), std::move(x1)); logged(); seen(x0.get(), d); } break;
    case 11: { auto &d = d0; Own<D4> x0(d, 0); expa(x0.addr()); exp_(x0.get()); auto &r = rr_d4(x0.get()); sym_assert((void *)&r == x0.ptr(), "returned-reference"); logged();  } break;
    case 12: { auto &d = d0; Own<D4> x0(d, 0); expa(x0.addr()); exp_(x0.get()); auto &r = mm_d4(x0.get()); sym_assert((void *)&r == x0.ptr(), "returned-reference"); logged(); seen(x0.get(), d); } break;
    case 13: { auto d = d0.fallible(); Own<D4> x0(d, 0); expa(x0.addr()); exp_(x0.get()); try { auto &r = tr_d4(x0.get()); sym_assert((void *)&r == x0.ptr(), "returned-reference"); sym_assert(!d.fail, "ok"); } catch (const rust::Error &e) { sym_assert(d.fail && std::string(e.what()) == "Bad", "err"); } logged();  } break;
    case 14: { auto d = d0.fallible(); Own<D4> x0(d, 0); expa(x0.addr()); exp_(x0.get()); try { auto &r = tm_d4(x0.get()); sym_assert((void *)&r == x0.ptr(), "returned-reference"); sym_assert(!d.fail, "ok"); } catch (const rust::Error &e) { sym_assert(d.fail && std::string(e.what()) == "Bad", "err"); } logged(); seen(x0.get(), d); } break;
    case 15: { auto &d = d0; Own<N> x0(d, 0); expa(x0.addr()); exp_(x0.get()); Own<N> x1(d, 1); expa(x1.addr()); exp_(x1.get()); r_n(x0.get(), x1.get()); logged();  } break;
    case 16: { auto &d = d0; Own<N> x0(d, 0); expa(x0.addr()); exp_(x0.get()); auto x1 = val<uint16_t>(d, 1); exp_(x1); m_n(x0.get(), std::move(x1)); logged(); seen(x0.get(), d); } break;
    case 17: { auto &d = d0; Own<N> x0(d, 0); expa(x0.addr()); exp_(x0.get()); auto &r = rr_n(x0.get()); sym_assert((void *)&r == x0.ptr(), "returned-reference"); logged();  } break;
    case 18: { auto &d = d0; Own<N> x0(d, 0); expa(x0.addr()); exp_(x0.get()); auto &r = mm_n(x0.get()); sym_assert((void *)&r == x0.ptr(), "returned-reference"); logged(); seen(x0.get(), d); } break;
    case 19: { auto d = d0.fallible(); Own<N> x0(d, 0); expa(x0.addr()); exp_(x0.get()); try { auto &r = tr_n(x0.get()); sym_assert((void *)&r == x0.ptr(), "returned-reference"); sym_assert(!d.fail, "ok"); } catch (const rust::Error &e) { sym_assert(d.fail && std::string(e.what()) == "Bad", "err"); } logged();  } break;
    case 20: { auto d = d0.fallible(); Own<N> x0(d, 0); expa(x0.addr()); exp_(x0.get()); try { auto &r = tm_n(x0.get()); sym_assert((void *)&r == x0.ptr(), "returned-reference"); sym_assert(!d.fail, "ok"); } catch (const rust::Error &e) { sym_assert(d.fail && std::string(e.what()) == "Bad", "err"); } logged(); seen(x0.get(), d); } break;
    case 21: { auto &d = d0; Own<Ar> x0(d, 0); expa(x0.addr()); exp_(x0.get()); Own<Ar> x1(d, 1); expa(x1.addr()); exp_(x1.get()); r_ar(x0.get(), x1.get()); logged();  } break;
    case 22: { auto &d = d0; Own<Ar> x0(d, 0); expa(x0.addr()); exp_(x0.get()); auto x1 = val<uint16_t>(d, 1); exp_(x1); m_ar(x0.get(), std::move(x1)); logged(); seen(x0.get(), d); } break;
    case 23: { auto &d = d0; Own<Ar> x0(d, 0); expa(x0.addr()); exp_(x0.get()); auto &r = rr_ar(x0.get()); sym_assert((void *)&r == x0.ptr(), "returned-reference"); logged();  } break;
} }); }
extern "C" void h_16() { run([](const Data &d0) { switch (sym_choice(24, "function")) {
    case 0: { auto &d = d0; Own<Ar> x0(d, 0); expa(x0.addr()); exp_(x0.get()); auto &r = mm_ar(x0.get()); sym_assert((void *)&r == x0.ptr(), "returned-reference"); logged(); seen(x0.get(), d); } break;
    case 1: { auto d = d0.fallible(); Own<Ar> x0(d, 0); expa(x0.addr()); exp_(x0.get()); try { auto &r = tr_ar(x0.get()); sym_assert((void *)&r == x0.ptr(), "returned-reference"); sym_assert(!d.fail, "ok"); } catch (const rust::Error &e) { sym_assert(d.fail && std::string(e.what()) == "Bad", "err"); } logged();  } break;
    case 2: { auto d = d0.fallible(); Own<Ar> x0(d, 0); expa(x0.addr()); exp_(x0.get()); try { auto &r = tm_ar(x0.get()); sym_assert((void *)&r == x0.ptr(), "returned-reference"); sym_assert(!d.fail, "ok"); } catch (const rust::Error &e) { sym_assert(d.fail && std::string(e.what()) == "Bad", "err"); } logged(); seen(x0.get(), d); } break;
    case 3: { auto &d = d0; Own<Nest> x0(d, 0); expa(x0.addr()); exp_(x0.get()); Own<Nest> x1(d, 1); expa(x1.addr()); exp_(x1.get()); r_nest(x0.get(), x1.get()); logged();  } break;
    case 4: { auto &d = d0; Own<Nest> x0(d, 0); expa(x0.addr()); exp_(x0.get()); auto x1 = val<uint16_t>(d, 1); exp_(x1); m_nest(x0.get(), std::move(x1)); logged(); seen(x0.get(), d); } break;
    case 5: { auto &d = d0; Own<Nest> x0(d, 0); expa(x0.addr()); exp_(x0.get()); auto &r = rr_nest(x0.get()); sym_assert((void *)&r == x0.ptr(), "returned-reference"); logged();  } break;
    case 6: { auto &d = d0; Own<Nest> x0(d, 0); expa(x0.addr()); exp_(x0.get()); auto &r = mm_nest(x0.get()); sym_assert((void *)&r == x0.ptr(), "returned-reference"); logged(); seen(x0.get(), d); } break;
    case 7: { auto d = d0.fallible(); Own<Nest> x0(d, 0); expa(x0.addr()); exp_(x0.get()); try { auto &r = tr_nest(x0.get()); sym_assert((void *)&r == x0.ptr(), "returned-reference"); sym_assert(!d.fail, "ok"); } catch (const rust::Error &e) { sym_assert(d.fail && std::string(e.what()) == "Bad", "err"); } logged();  } break;
    case 8: { auto d = d0.fallible(); Own<Nest> x0(d, 0); expa(x0.addr()); exp_(x0.get()); try { auto &r = tm_nest(x0.get()); sym_assert((void *)&r == x0.ptr(), "returned-reference"); sym_assert(!d.fail, "ok"); } catch (const rust::Error &e) { sym_assert(d.fail && std::string(e.what()) == "Bad", "err"); } logged(); seen(x0.get(), d); } break;
    case 9: { auto &d = d0; Own<En> x0(d, 0); expa(x0.addr()); exp_(x0.get()); Own<En> x1(d, 1); expa(x1.addr()); exp_(x1.get()); r_en(x0.get(), x1.get()); logged();  } break;
    case 10: { auto &d = d0; Own<En> x0(d, 0); expa(x0.addr()); exp_(x0.get()); auto x1 = val<uint16_t>(d, 1); exp_(x1); m_en(x0.get(), std::move(x1)); logged(); seen(x0.get(), d); } break;
    case 11: { auto &d = d0; Own<En> x0(d, 0); expa(x0.addr()); exp_(x0.get()); auto &r = rr_en(x0.get()); sym_assert((void *)&r == x0.ptr(), "returned-reference"); logged();  } break;
    case 12: { auto &d = d0; Own<En> x0(d, 0); expa(x0.addr()); exp_(x0.get()); auto &r = mm_en(x0.get()); sym_assert((void *)&r == x0.ptr(), "returned-reference"); logged(); seen(x0.get(), d); } break;
    case 13: { auto d = d0.fallible(); Own<En> x0(d, 0); expa(x0.addr()); exp_(x0.get()); try { auto &r = tr_en(x0.get()); sym_assert((void *)&r == x0.ptr(), "returned-reference"); sym_assert(!d.fail, "ok"); } catch (const rust::Error &e) { sym_assert(d.fail && std::string(e.what()) == "Bad", "err"); } logged();  } break;
    case 14: { auto d = d0.fallible(); Own<En> x0(d, 0); expa(x0.addr()); exp_(x0.get()); try { auto &r = tm_en(x0.get()); sym_assert((void *)&r == x0.ptr(), "returned-reference"); sym_assert(!d.fail, "ok"); } catch (const rust::Error &e) { sym_assert(d.fail && std::string(e.what()) == "Bad", "err"); } logged(); seen(x0.get(), d); } break;
    case 15: { auto &d = d0; Own<Ei16> x0(d, 0); expa(x0.addr()); exp_(x0.get()); Own<Ei16> x1(d, 1); expa(x1.addr()); exp_(x1.get()); r_ei16(x0.get(), x1.get()); logged();  } break;
    case 16: { auto &d = d0; Own<Ei16> x0(d, 0); expa(x0.addr()); exp_(x0.get()); auto x1 = val<uint16_t>(d, 1); exp_(x1); m_ei16(x0.get(), std::move(x1)); logged(); seen(x0.get(), d); } break;
    case 17: { auto &d = d0; Own<Ei16> x0(d, 0); expa(x0.addr()); exp_(x0.get()); auto &r = rr_ei16(x0.get()); sym_assert((void *)&r == x0.ptr(), "returned-reference"); logged();  } break;
    case 18: { auto &d = d0; Own<Ei16> x0(d, 0); expa(x0.addr()); exp_(x0.get()); auto &r = mm_ei16(x0.get()); sym_assert((void *)&r == x0.ptr(), "returned-reference"); logged(); seen(x0.get(), d); } break;
    case 19: { auto d = d0.fallible(); Own<Ei16> x0(d, 0); expa(x0.addr()); exp_(x0.get()); try { auto &r = tr_ei16(x0.get()); sym_assert((void *)&r == x0.ptr(), "returned-reference"); sym_assert(!d.fail, "ok"); } catch (const rust::Error &e) { sym_assert(d.fail && std::string(e.what()) == "Bad", "err"); } logged();  } break;
    case 20: { auto d = d0.fallible(); Own<Ei16> x0(d, 0); expa(x0.addr()); exp_(x0.get()); try { auto &r = tm_ei16(x0.get()); sym_assert((void *)&r == x0.ptr(), "returned-reference"); sym_assert(!d.fail, "ok"); } catch (const rust::Error &e) { sym_assert(d.fail && std::string(e.what()) == "Bad", "err"); } logged(); seen(x0.get(), d); } break;
    case 21: { auto &d = d0; Own<Eu64> x0(d, 0); expa(x0.addr()); exp_(x0.get()); Own<Eu64> x1(d, 1); expa(x1.addr()); exp_(x1.get()); r_eu64(x0.get(), x1.get()); logged();  } break;
    case 22: { auto &d = d0; Own<Eu64> x0(d, 0); expa(x0.addr()); exp_(x0.get()); auto x1 = val<uint16_t>(d, 1); exp_(x1); m_eu64(x0.get(), std::move(x1)); logged(); seen(x0.get(), d); } break;
    case 23: { auto &d = d0; Own<Eu64> x0(d, 0); expa(x0.addr()); exp_(x0.get()); auto &r = rr_eu64(x0.get()); sym_assert((void *)&r == x0.ptr(), "returned-reference"); logged();  } break;
} }); }
extern "C" void h_17() { run([](const Data &d0) { switch (sym_choice(24, "function")) {
    case 0: { auto &d = d0; Own<Eu64> x0(d, 0); expa(x0.addr()); exp_(x0.get()); auto &r = mm_eu64(x0.get()); sym_assert((void *)&r == x0.ptr(), "returned-reference"); logged(); seen(x0.get(), d); } break;
    case 1: { auto d = d0.fallible(); Own<Eu64> x0(d, 0); expa(x0.addr()); exp_(x0.get()); try { auto &r = tr_eu64(x0.get()); sym_assert((void *)&r == x0.ptr(), "returned-reference"); sym_assert(!d.fail, "ok"); } catch (const rust::Error &e) { sym_assert(d.fail && std::string(e.what()) == "Bad", "err"); } logged();  } break;
    case 2: { auto d = d0.fallible(); Own<Eu64> x0(d, 0); expa(x0.addr()); exp_(x0.get()); try { auto &r = tm_eu64(x0.get()); sym_assert((void *)&r == x0.ptr(), "returned-reference"); sym_assert(!d.fail, "ok"); } catch (const rust::Error &e) { sym_assert(d.fail && std::string(e.what()) == "Bad", "err"); } logged(); seen(x0.get(), d); } break;
    case 3: { auto &d = d0; Own<T1> x0(d, 0); expa(x0.addr()); exp_(x0.get()); Own<T1> x1(d, 1); expa(x1.addr()); exp_(x1.get()); r_t1(x0.get(), x1.get()); logged();  } break;
    case 4: { auto &d = d0; Own<T1> x0(d, 0); expa(x0.addr()); exp_(x0.get()); auto x1 = val<uint16_t>(d, 1); exp_(x1); m_t1(x0.get(), std::move(x1)); logged(); seen(x0.get(), d); } break;
    case 5: { auto &d = d0; Own<T1> x0(d, 0); expa(x0.addr()); exp_(x0.get()); auto &r = rr_t1(x0.get()); sym_assert((void *)&r == x0.ptr(), "returned-reference"); logged();  } break;
    case 6: { auto &d = d0; Own<T1> x0(d, 0); expa(x0.addr()); exp_(x0.get()); auto &r = mm_t1(x0.get()); sym_assert((void *)&r == x0.ptr(), "returned-reference"); logged(); seen(x0.get(), d); } break;
    case 7: { auto d = d0.fallible(); Own<T1> x0(d, 0); expa(x0.addr()); exp_(x0.get()); try { auto &r = tr_t1(x0.get()); sym_assert((void *)&r == x0.ptr(), "returned-reference"); sym_assert(!d.fail, "ok"); } catch (const rust::Error &e) { sym_assert(d.fail && std::string(e.what()) == "Bad", "err"); } logged();  } break;
    case 8: { auto d = d0.fallible(); Own<T1> x0(d, 0); expa(x0.addr()); exp_(x0.get()); try { auto &r = tm_t1(x0.get()); sym_assert((void *)&r == x0.ptr(), "returned-reference"); sym_assert(!d.fail, "ok"); } catch (const rust::Error &e) { sym_assert(d.fail && std::string(e.what()) == "Bad", "err"); } logged(); seen(x0.get(), d); } break;
    case 9: { auto &d = d0; Own<T3> x0(d, 0); expa(x0.addr()); exp_(x0.get()); Own<T3> x1(d, 1); expa(x1.addr()); exp_(x1.get()); r_t3(x0.get(), x1.get()); logged();  } break;
    case 10: { auto &d = d0; Own<T3> x0(d, 0); expa(x0.addr()); exp_(x0.get()); auto x1 = val<uint16_t>(d, 1); exp_(x1); m_t3(x0.get(), std::move(x1)); logged(); seen(x0.get(), d); } break;
    case 11: { auto &d = d0; Own<T3> x0(d, 0); expa(x0.addr()); exp_(x0.get()); auto &r = rr_t3(x0.get()); sym_assert((void *)&r == x0.ptr(), "returned-reference"); logged();  } break;
    case 12: { auto &d = d0; Own<T3> x0(d, 0); expa(x0.addr()); exp_(x0.get()); auto &r = mm_t3(x0.get()); sym_assert((void *)&r == x0.ptr(), "returned-reference"); logged(); seen(x0.get(), d); } break;
    case 13: { auto d = d0.fallible(); Own<T3> x0(d, 0); expa(x0.addr()); exp_(x0.get()); try { auto &r = tr_t3(x0.get()); sym_assert((void *)&r == x0.ptr(), "returned-reference"); sym_assert(!d.fail, "ok"); } catch (const rust::Error &e) { sym_assert(d.fail && std::string(e.what()) == "Bad", "err"); } logged();  } break;
    case 14: { auto d = d0.fallible(); Own<T3> x0(d, 0); expa(x0.addr()); exp_(x0.get()); try { auto &r = tm_t3(x0.get()); sym_assert((void *)&r == x0.ptr(), "returned-reference"); sym_assert(!d.fail, "ok"); } catch (const rust::Error &e) { sym_assert(d.fail && std::string(e.what()) == "Bad", "err"); } logged(); seen(x0.get(), d); } break;
    case 15: { auto &d = d0; Own<Tx> x0(d, 0); expa(x0.addr()); exp_(x0.get()); Own<Tx> x1(d, 1); expa(x1.addr()); exp_(x1.get()); r_tx(x0.get(), x1.get()); logged();  } break;
    case 16: { auto &d = d0; Own<Tx> x0(d, 0); expa(x0.addr()); exp_(x0.get()); auto x1 = val<uint16_t>(d, 1); exp_(x1); m_tx(x0.get(), std::move(x1)); logged(); seen(x0.get(), d); } break;
    case 17: { auto &d = d0; Own<Tx> x0(d, 0); expa(x0.addr()); exp_(x0.get()); auto &r = rr_tx(x0.get()); sym_assert((void *)&r == x0.ptr(), "returned-reference"); logged();  } break;
    case 18: { auto &d = d0; Own<Tx> x0(d, 0); expa(x0.addr()); exp_(x0.get()); auto &r = mm_tx(x0.get()); sym_assert((void *)&r == x0.ptr(), "returned-reference"); logged(); seen(x0.get(), d); } break;
    case 19: { auto d = d0.fallible(); Own<Tx> x0(d, 0); expa(x0.addr()); exp_(x0.get()); try { auto &r = tr_tx(x0.get()); sym_assert((void *)&r == x0.ptr(), "returned-reference"); sym_assert(!d.fail, "ok"); } catch (const rust::Error &e) { sym_assert(d.fail && std::string(e.what()) == "Bad", "err"); } logged();  } break;
    case 20: { auto d = d0.fallible(); Own<Tx> x0(d, 0); expa(x0.addr()); exp_(x0.get()); try { auto &r = tm_tx(x0.get()); sym_assert((void *)&r == x0.ptr(), "returned-reference"); sym_assert(!d.fail, "ok"); } catch (const rust::Error &e) { sym_assert(d.fail && std::string(e.what()) == "Bad", "err"); } logged(); seen(x0.get(), d); } break;
    case 21: { auto &d = d0; Own<std::array<uint8_t, 5>> x0(d, 0); expa(x0.addr()); exp_(x0.get()); Own<std::array<uint8_t, 5>> x1(d, 1); expa(x1.addr()); exp_(x1.get()); r_arr5(x0.get(), x1.get()); logged();  } break;
    case 22: { auto &d = d0; Own<std::array<uint8_t, 5>> x0(d, 0); expa(x0.addr()); exp_(x0.get()); auto x1 = val<uint16_t>(d, 1); exp_(x1); m_arr5(x0.get(), std::move(x1)); logged(); seen(x0.get(), d); } break;
    case 23: { auto &d = d0; Own<std::array<uint8_t, 5>> x0(d, 0); expa(x0.addr()); exp_(x0.get()); auto &r = rr_arr5(x0.get()); sym_assert((void *)&r == x0.ptr(), "returned-reference"); logged();  } break;
} }); }
extern "C" void h_18() { run([](const Data &d0) { switch (sym_choice(24, "function")) {
    case 0: { auto &d = d0; Own<std::array<uint8_t, 5>> x0(d, 0); expa(x0.addr()); exp_(x0.get()); auto &r = mm_arr5(x0.get()); sym_assert((void *)&r == x0.ptr(), "returned-reference"); logged(); seen(x0.get(), d); } break;
    case 1: { auto d = d0.fallible(); Own<std::array<uint8_t, 5>> x0(d, 0); expa(x0.addr()); exp_(x0.get()); try { auto &r = tr_arr5(x0.get()); sym_assert((void *)&r == x0.ptr(), "returned-reference"); sym_assert(!d.fail, "ok"); } catch (const rust::Error &e) { sym_assert(d.fail && std::string(e.what()) == "Bad", "err"); } logged();  } break;
    case 2: { auto d = d0.fallible(); Own<std::array<uint8_t, 5>> x0(d, 0); expa(x0.addr()); exp_(x0.get()); try { auto &r = tm_arr5(x0.get()); sym_assert((void *)&r == x0.ptr(), "returned-reference"); sym_assert(!d.fail, "ok"); } catch (const rust::Error &e) { sym_assert(d.fail && std::string(e.what()) == "Bad", "err"); } logged(); seen(x0.get(), d); } break;
    case 3: { auto &d = d0; Own<std::array<rust::String, 2>> x0(d, 0); expa(x0.addr()); exp_(x0.get()); Own<std::array<rust::String, 2>> x1(d, 1); expa(x1.addr()); exp_(x1.get()); r_arrs(x0.get(), x1.get()); logged();  } break;
    case 4: { auto &d = d0; Own<std::array<rust::String, 2>> x0(d, 0); expa(x0.addr()); exp_(x0.get()); auto x1 = val<uint16_t>(d, 1); exp_(x1); m_arrs(x0.get(), std::move(x1)); logged(); seen(x0.get(), d); } break;
    case 5: { auto &d = d0; Own<std::array<rust::String, 2>> x0(d, 0); expa(x0.addr()); exp_(x0.get()); auto &r = rr_arrs(x0.get()); sym_assert((void *)&r == x0.ptr(), "returned-reference"); logged();  } break;
    case 6: { auto &d = d0; Own<std::array<rust::String, 2>> x0(d, 0); expa(x0.addr()); exp_(x0.get()); auto &r = mm_arrs(x0.get()); sym_assert((void *)&r == x0.ptr(), "returned-reference"); logged(); seen(x0.get(), d); } break;
    case 7: { auto d = d0.fallible(); Own<std::array<rust::String, 2>> x0(d, 0); expa(x0.addr()); exp_(x0.get()); try { auto &r = tr_arrs(x0.get()); sym_assert((void *)&r == x0.ptr(), "returned-reference"); sym_assert(!d.fail, "ok"); } catch (const rust::Error &e) { sym_assert(d.fail && std::string(e.what()) == "Bad", "err"); } logged();  } break;
    case 8: { auto d = d0.fallible(); Own<std::array<rust::String, 2>> x0(d, 0); expa(x0.addr()); exp_(x0.get()); try { auto &r = tm_arrs(x0.get()); sym_assert((void *)&r == x0.ptr(), "returned-reference"); sym_assert(!d.fail, "ok"); } catch (const rust::Error &e) { sym_assert(d.fail && std::string(e.what()) == "Bad", "err"); } logged(); seen(x0.get(), d); } break;
    case 9: { auto &d = d0; Own<R> x0(d, 0); expa(x0.addr()); exp_(x0.get()); Own<R> x1(d, 1); expa(x1.addr()); exp_(x1.get()); r_r(x0.get(), x1.get()); logged();  } break;
    case 10: { auto &d = d0; Own<R> x0(d, 0); expa(x0.addr()); exp_(x0.get()); auto x1 = val<uint16_t>(d, 1); exp_(x1); m_r(x0.get(), std::move(x1)); logged(); seen(x0.get(), d); } break;
    case 11: { auto &d = d0; Own<R> x0(d, 0); expa(x0.addr()); exp_(x0.get()); auto &r = rr_r(x0.get()); sym_assert((void *)&r == x0.ptr(), "returned-reference"); logged();  } break;
    case 12: { auto &d = d0; Own<R> x0(d, 0); expa(x0.addr()); exp_(x0.get()); auto &r = mm_r(x0.get()); sym_assert((void *)&r == x0.ptr(), "returned-reference"); logged(); seen(x0.get(), d); } break;
    case 13: { auto d = d0.fallible(); Own<R> x0(d, 0); expa(x0.addr()); exp_(x0.get()); try { auto &r = tr_r(x0.get()); sym_assert((void *)&r == x0.ptr(), "returned-reference"); sym_assert(!d.fail, "ok"); } catch (const rust::Error &e) { sym_assert(d.fail && std::string(e.what()) == "Bad", "err"); } logged();  } break;
    case 14: { auto d = d0.fallible(); Own<R> x0(d, 0); expa(x0.addr()); exp_(x0.get()); try { auto &r = tm_r(x0.get()); sym_assert((void *)&r == x0.ptr(), "returned-reference"); sym_assert(!d.fail, "ok"); } catch (const rust::Error &e) { sym_assert(d.fail && std::string(e.what()) == "Bad", "err"); } logged(); seen(x0.get(), d); } break;
    case 15: { auto &d = d0; Own<C> x0(d, 0); expa(x0.addr()); exp_(x0.get()); Own<C> x1(d, 1); expa(x1.addr()); exp_(x1.get()); r_c(x0.get(), x1.get()); logged();  } break;
    case 16: { auto &d = d0; Own<C> x0(d, 0); expa(x0.addr()); exp_(x0.get()); auto x1 = val<uint16_t>(d, 1); exp_(x1); m_c(x0.get(), std::move(x1)); logged(); seen(x0.get(), d); } break;
    case 17: { auto &d = d0; Own<C> x0(d, 0); expa(x0.addr()); exp_(x0.get()); auto &r = rr_c(x0.get()); sym_assert((void *)&r == x0.ptr(), "returned-reference"); logged();  } break;
    case 18: { auto &d = d0; Own<C> x0(d, 0); expa(x0.addr()); exp_(x0.get()); auto &r = mm_c(x0.get()); sym_assert((void *)&r == x0.ptr(), "returned-reference"); logged(); seen(x0.get(), d); } break;
    case 19: { auto d = d0.fallible(); Own<C> x0(d, 0); expa(x0.addr()); exp_(x0.get()); try { auto &r = tr_c(x0.get()); sym_assert((void *)&r == x0.ptr(), "returned-reference"); sym_assert(!d.fail, "ok"); } catch (const rust::Error &e) { sym_assert(d.fail && std::string(e.what()) == "Bad", "err"); } logged();  } break;
    case 20: { auto d = d0.fallible(); Own<C> x0(d, 0); expa(x0.addr()); exp_(x0.get()); try { auto &r = tm_c(x0.get()); sym_assert((void *)&r == x0.ptr(), "returned-reference"); sym_assert(!d.fail, "ok"); } catch (const rust::Error &e) { sym_assert(d.fail && std::string(e.what()) == "Bad", "err"); } logged(); seen(x0.get(), d); } break;
    case 21: { auto &d = d0; Own<std::string> x0(d, 0); expa(x0.addr()); exp_(x0.get()); Own<std::string> x1(d, 1); expa(x1.addr()); exp_(x1.get()); r_cxxstring(x0.get(), x1.get()); logged();  } break;
    case 22: { auto &d = d0; Own<std::string> x0(d, 0); expa(x0.addr()); exp_(x0.get()); auto x1 = val<uint16_t>(d, 1); exp_(x1); m_cxxstring(x0.get(), std::move(x1)); logged(); seen(x0.get(), d); } break;
    case 23: { auto &d = d0; Own<std::string> x0(d, 0); expa(x0.addr()); exp_(x0.get()); auto &r = rr_cxxstring(x0.get()); sym_assert((void *)&r == x0.ptr(), "returned-reference"); logged();  } break;
} }); }
extern "C" void h_19() { run([](const Data &d0) { switch (sym_choice(24, "function")) {
    case 0: { auto &d = d0; Own<std::string> x0(d, 0); expa(x0.addr()); exp_(x0.get()); auto &r = mm_cxxstring(x0.get()); sym_assert((void *)&r == x0.ptr(), "returned-reference"); logged(); seen(x0.get(), d); } break;
    case 1: { auto d = d0.fallible(); Own<std::string> x0(d, 0); expa(x0.addr()); exp_(x0.get()); try { auto &r = tr_cxxstring(x0.get()); sym_assert((void *)&r == x0.ptr(), "returned-reference"); sym_assert(!d.fail, "ok"); } catch (const rust::Error &e) { sym_assert(d.fail && std::string(e.what()) == "Bad", "err"); } logged();  } break;
    case 2: { auto d = d0.fallible(); Own<std::string> x0(d, 0); expa(x0.addr()); exp_(x0.get()); try { auto &r = tm_cxxstring(x0.get()); sym_assert((void *)&r == x0.ptr(), "returned-reference"); sym_assert(!d.fail, "ok"); } catch (const rust::Error &e) { sym_assert(d.fail && std::string(e.what()) == "Bad", "err"); } logged(); seen(x0.get(), d); } break;
    case 3: { auto &d = d0; Own<std::vector<uint32_t>> x0(d, 0); expa(x0.addr()); exp_(x0.get()); Own<std::vector<uint32_t>> x1(d, 1); expa(x1.addr()); exp_(x1.get()); r_cxxvector(x0.get(), x1.get()); logged();  } break;
    case 4: { auto &d = d0; Own<std::vector<uint32_t>> x0(d, 0); expa(x0.addr()); exp_(x0.get()); auto x1 = val<uint16_t>(d, 1); exp_(x1); m_cxxvector(x0.get(), std::move(x1)); logged(); seen(x0.get(), d); } break;
    case 5: { auto &d = d0; Own<std::vector<uint32_t>> x0(d, 0); expa(x0.addr()); exp_(x0.get()); auto &r = rr_cxxvector(x0.get()); sym_assert((void *)&r == x0.ptr(), "returned-reference"); logged();  } break;
    case 6: { auto &d = d0; Own<std::vector<uint32_t>> x0(d, 0); expa(x0.addr()); exp_(x0.get()); auto &r = mm_cxxvector(x0.get()); sym_assert((void *)&r == x0.ptr(), "returned-reference"); logged(); seen(x0.get(), d); } break;
    case 7: { auto d = d0.fallible(); Own<std::vector<uint32_t>> x0(d, 0); expa(x0.addr()); exp_(x0.get()); try { auto &r = tr_cxxvector(x0.get()); sym_assert((void *)&r == x0.ptr(), "returned-reference"); sym_assert(!d.fail, "ok"); } catch (const rust::Error &e) { sym_assert(d.fail && std::string(e.what()) == "Bad", "err"); } logged();  } break;
    case 8: { auto d = d0.fallible(); Own<std::vector<uint32_t>> x0(d, 0); expa(x0.addr()); exp_(x0.get()); try { auto &r = tm_cxxvector(x0.get()); sym_assert((void *)&r == x0.ptr(), "returned-reference"); sym_assert(!d.fail, "ok"); } catch (const rust::Error &e) { sym_assert(d.fail && std::string(e.what()) == "Bad", "err"); } logged(); seen(x0.get(), d); } break;
    case 9: { auto &d = d0; Own<std::vector<N>> x0(d, 0); expa(x0.addr()); exp_(x0.get()); Own<std::vector<N>> x1(d, 1); expa(x1.addr()); exp_(x1.get()); r_cxxvectorn(x0.get(), x1.get()); logged();  } break;
    case 10: { auto &d = d0; Own<std::vector<N>> x0(d, 0); expa(x0.addr()); exp_(x0.get()); auto x1 = val<uint16_t>(d, 1); exp_(x1); m_cxxvectorn(x0.get(), std::move(x1)); logged(); seen(x0.get(), d); } break;
    case 11: { auto &d = d0; Own<std::vector<N>> x0(d, 0); expa(x0.addr()); exp_(x0.get()); auto &r = rr_cxxvectorn(x0.get()); sym_assert((void *)&r == x0.ptr(), "returned-reference"); logged();  } break;
    case 12: { auto &d = d0; Own<std::vector<N>> x0(d, 0); expa(x0.addr()); exp_(x0.get()); auto &r = mm_cxxvectorn(x0.get()); sym_assert((void *)&r == x0.ptr(), "returned-reference"); logged(); seen(x0.get(), d); } break;
    case 13: { auto d = d0.fallible(); Own<std::vector<N>> x0(d, 0); expa(x0.addr()); exp_(x0.get()); try { auto &r = tr_cxxvectorn(x0.get()); sym_assert((void *)&r == x0.ptr(), "returned-reference"); sym_assert(!d.fail, "ok"); } catch (const rust::Error &e) { sym_assert(d.fail && std::string(e.what()) == "Bad", "err"); } logged();  } break;
    case 14: { auto d = d0.fallible(); Own<std::vector<N>> x0(d, 0); expa(x0.addr()); exp_(x0.get()); try { auto &r = tm_cxxvectorn(x0.get()); sym_assert((void *)&r == x0.ptr(), "returned-reference"); sym_assert(!d.fail, "ok"); } catch (const rust::Error &e) { sym_assert(d.fail && std::string(e.what()) == "Bad", "err"); } logged(); seen(x0.get(), d); } break;
    case 15: { auto &d = d0; Vals<uint8_t> x0(d, 0); exp_slice(x0.slice()); auto x1 = val<uint32_t>(d, 1); exp_(x1); Vals<uint8_t> x2(d, 2); exp_slice(x2.slice()); s_u8(x0.cslice(), std::move(x1), x2.cslice()); logged();  } break;
    case 16: { auto &d = d0; Vals<uint8_t> x0(d, 0); exp_slice(x0.slice()); sm_u8(x0.slice()); logged(); seen_slice(x0.slice(), d); } break;
    case 17: { auto &d = d0; Vals<uint8_t> x0(d, 0); exp_slice(x0.slice()); auto r = ss_u8(x0.cslice()); same_slice(r, x0.slice()); logged();  } break;
    case 18: { auto &d = d0; Vals<uint8_t> x0(d, 0); exp_slice(x0.slice()); auto r = sms_u8(x0.slice()); same_slice(r, x0.slice()); logged(); seen_slice(x0.slice(), d); } break;
    case 19: { auto d = d0.fallible(); Vals<uint8_t> x0(d, 0); exp_slice(x0.slice()); try { auto r = ts_u8(x0.cslice()); same_slice(r, x0.slice()); sym_assert(!d.fail, "ok"); } catch (const rust::Error &e) { sym_assert(d.fail && std::string(e.what()) == "Bad", "err"); } logged();  } break;
    case 20: { auto d = d0.fallible(); Vals<uint8_t> x0(d, 0); exp_slice(x0.slice()); try { auto r = tsm_u8(x0.slice()); same_slice(r, x0.slice()); sym_assert(!d.fail, "ok"); } catch (const rust::Error &e) { sym_assert(d.fail && std::string(e.what()) == "Bad", "err"); } logged(); seen_slice(x0.slice(), d); } break;
    case 21: { auto &d = d0; Vals<double> x0(d, 0); exp_slice(x0.slice()); auto x1 = val<uint32_t>(d, 1); exp_(x1); Vals<double> x2(d, 2); exp_slice(x2.slice()); s_f64(x0.cslice(), std::move(x1), x2.cslice()); logged();  } break;
    case 22: { auto &d = d0; Vals<double> x0(d, 0); exp_slice(x0.slice()); sm_f64(x0.slice()); logged(); seen_slice(x0.slice(), d); } break;
    case 23: { auto &d = d0; Vals<double> x0(d, 0); exp_slice(x0.slice()); auto r = ss_f64(x0.cslice()); same_slice(r, x0.slice()); logged();  } break;
} }); }
extern "C" void h_20() { run([](const Data &d0) { switch (sym_choice(24, "function")) {
    case 0: { auto &d = d0; Vals<double> x0(d, 0); exp_slice(x0.slice()); auto r = sms_f64(x0.slice()); same_slice(r, x0.slice()); logged(); seen_slice(x0.slice(), d); } break;
    case 1: { auto d = d0.fallible(); Vals<double> x0(d, 0); exp_slice(x0.slice()); try { auto r = ts_f64(x0.cslice()); same_slice(r, x0.slice()); sym_assert(!d.fail, "ok"); } catch (const rust::Error &e) { sym_assert(d.fail && std::string(e.what()) == "Bad", "err"); } logged();  } break;
    case 2: { auto d = d0.fallible(); Vals<double> x0(d, 0); exp_slice(x0.slice()); try { auto r = tsm_f64(x0.slice()); same_slice(r, x0.slice()); sym_assert(!d.fail, "ok"); } catch (const rust::Error &e) { sym_assert(d.fail && std::string(e.what()) == "Bad", "err"); } logged(); seen_slice(x0.slice(), d); } break;
    case 3: { auto &d = d0; Vals<P2> x0(d, 0); exp_slice(x0.slice()); auto x1 = val<uint32_t>(d, 1); exp_(x1); Vals<P2> x2(d, 2); exp_slice(x2.slice()); s_p2(x0.cslice(), std::move(x1), x2.cslice()); logged();  } break;
    case 4: { auto &d = d0; Vals<P2> x0(d, 0); exp_slice(x0.slice()); sm_p2(x0.slice()); logged(); seen_slice(x0.slice(), d); } break;
    case 5: { auto &d = d0; Vals<P2> x0(d, 0); exp_slice(x0.slice()); auto r = ss_p2(x0.cslice()); same_slice(r, x0.slice()); logged();  } break;
    case 6: { auto &d = d0; Vals<P2> x0(d, 0); exp_slice(x0.slice()); auto r = sms_p2(x0.slice()); same_slice(r, x0.slice()); logged(); seen_slice(x0.slice(), d); } break;
    case 7: { auto d = d0.fallible(); Vals<P2> x0(d, 0); exp_slice(x0.slice()); try { auto r = ts_p2(x0.cslice()); same_slice(r, x0.slice()); sym_assert(!d.fail, "ok"); } catch (const rust::Error &e) { sym_assert(d.fail && std::string(e.what()) == "Bad", "err"); } logged();  } break;
    case 8: { auto d = d0.fallible(); Vals<P2> x0(d, 0); exp_slice(x0.slice()); try { auto r = tsm_p2(x0.slice()); same_slice(r, x0.slice()); sym_assert(!d.fail, "ok"); } catch (const rust::Error &e) { sym_assert(d.fail && std::string(e.what()) == "Bad", "err"); } logged(); seen_slice(x0.slice(), d); } break;
    case 9: { auto &d = d0; Vals<N> x0(d, 0); exp_slice(x0.slice()); auto x1 = val<uint32_t>(d, 1); exp_(x1); Vals<N> x2(d, 2); exp_slice(x2.slice()); s_n(x0.cslice(), std::move(x1), x2.cslice()); logged();  } break;
    case 10: { auto &d = d0; Vals<N> x0(d, 0); exp_slice(x0.slice()); sm_n(x0.slice()); logged(); seen_slice(x0.slice(), d); } break;
    case 11: { auto &d = d0; Vals<N> x0(d, 0); exp_slice(x0.slice()); auto r = ss_n(x0.cslice()); same_slice(r, x0.slice()); logged();  } break;
    case 12: { auto &d = d0; Vals<N> x0(d, 0); exp_slice(x0.slice()); auto r = sms_n(x0.slice()); same_slice(r, x0.slice()); logged(); seen_slice(x0.slice(), d); } break;
    case 13: { auto d = d0.fallible(); Vals<N> x0(d, 0); exp_slice(x0.slice()); try { auto r = ts_n(x0.cslice()); same_slice(r, x0.slice()); sym_assert(!d.fail, "ok"); } catch (const rust::Error &e) { sym_assert(d.fail && std::string(e.what()) == "Bad", "err"); } logged();  } break;
    case 14: { auto d = d0.fallible(); Vals<N> x0(d, 0); exp_slice(x0.slice()); try { auto r = tsm_n(x0.slice()); same_slice(r, x0.slice()); sym_assert(!d.fail, "ok"); } catch (const rust::Error &e) { sym_assert(d.fail && std::string(e.what()) == "Bad", "err"); } logged(); seen_slice(x0.slice(), d); } break;
    case 15: { auto &d = d0; Vals<rust::String> x0(d, 0); exp_slice(x0.slice()); auto x1 = val<uint32_t>(d, 1); exp_(x1); Vals<rust::String> x2(d, 2); exp_slice(x2.slice()); s_string(x0.cslice(), std::move(x1), x2.cslice()); logged();  } break;
    case 16: { auto &d = d0; Vals<rust::String> x0(d, 0); exp_slice(x0.slice()); sm_string(x0.slice()); logged(); seen_slice(x0.slice(), d); } break;
    case 17: { auto &d = d0; Vals<rust::String> x0(d, 0); exp_slice(x0.slice()); auto r = ss_string(x0.cslice()); same_slice(r, x0.slice()); logged();  } break;
    case 18: { auto &d = d0; Vals<rust::String> x0(d, 0); exp_slice(x0.slice()); auto r = sms_string(x0.slice()); same_slice(r, x0.slice()); logged(); seen_slice(x0.slice(), d); } break;
    case 19: { auto d = d0.fallible(); Vals<rust::String> x0(d, 0); exp_slice(x0.slice()); try { auto r = ts_string(x0.cslice()); same_slice(r, x0.slice()); sym_assert(!d.fail, "ok"); } catch (const rust::Error &e) { sym_assert(d.fail && std::string(e.what()) == "Bad", "err"); } logged();  } break;
    case 20: { auto d = d0.fallible(); Vals<rust::String> x0(d, 0); exp_slice(x0.slice()); try { auto r = tsm_string(x0.slice()); same_slice(r, x0.slice()); sym_assert(!d.fail, "ok"); } catch (const rust::Error &e) { sym_assert(d.fail && std::string(e.what()) == "Bad", "err"); } logged(); seen_slice(x0.slice(), d); } break;
    case 21: { auto &d = d0; Vals<R> x0(d, 0); exp_slice(x0.slice()); auto x1 = val<uint32_t>(d, 1); exp_(x1); Vals<R> x2(d, 2); exp_slice(x2.slice()); s_r(x0.cslice(), std::move(x1), x2.cslice()); logged();  } break;
    case 22: { auto &d = d0; Vals<R> x0(d, 0); exp_slice(x0.slice()); sm_r(x0.slice()); logged(); seen_slice(x0.slice(), d); } break;
    case 23: { auto &d = d0; Vals<R> x0(d, 0); exp_slice(x0.slice()); auto r = ss_r(x0.cslice()); same_slice(r, x0.slice()); logged();  } break;
} }); }
extern "C" void h_21() { run([](const Data &d0) { switch (sym_choice(24, "function")) {
    case 0: { auto &d = d0; Vals<R> x0(d, 0); exp_slice(x0.slice()); auto r = sms_r(x0.slice()); same_slice(r, x0.slice()); logged(); seen_slice(x0.slice(), d); } break;
    case 1: { auto d = d0.fallible(); Vals<R> x0(d, 0); exp_slice(x0.slice()); try { auto r = ts_r(x0.cslice()); same_slice(r, x0.slice()); sym_assert(!d.fail, "ok"); } catch (const rust::Error &e) { sym_assert(d.fail && std::string(e.what()) == "Bad", "err"); } logged();  } break;
    case 2: { auto d = d0.fallible(); Vals<R> x0(d, 0); exp_slice(x0.slice()); try { auto r = tsm_r(x0.slice()); same_slice(r, x0.slice()); sym_assert(!d.fail, "ok"); } catch (const rust::Error &e) { sym_assert(d.fail && std::string(e.what()) == "Bad", "err"); } logged(); seen_slice(x0.slice(), d); } break;
    case 3: { auto &d = d0; Vals<std::unique_ptr<C>> x0(d, 0); exp_slice(x0.slice()); auto x1 = val<uint32_t>(d, 1); exp_(x1); Vals<std::unique_ptr<C>> x2(d, 2); exp_slice(x2.slice()); s_uobj(x0.cslice(), std::move(x1), x2.cslice()); logged();  } break;
    case 4: { auto &d = d0; Vals<std::unique_ptr<C>> x0(d, 0); exp_slice(x0.slice()); sm_uobj(x0.slice()); logged(); seen_slice(x0.slice(), d); } break;
    case 5: { auto &d = d0; Vals<std::unique_ptr<C>> x0(d, 0); exp_slice(x0.slice()); auto r = ss_uobj(x0.cslice()); same_slice(r, x0.slice()); logged();  } break;
    case 6: { auto &d = d0; Vals<std::unique_ptr<C>> x0(d, 0); exp_slice(x0.slice()); auto r = sms_uobj(x0.slice()); same_slice(r, x0.slice()); logged(); seen_slice(x0.slice(), d); } break;
    case 7: { auto d = d0.fallible(); Vals<std::unique_ptr<C>> x0(d, 0); exp_slice(x0.slice()); try { auto r = ts_uobj(x0.cslice()); same_slice(r, x0.slice()); sym_assert(!d.fail, "ok"); } catch (const rust::Error &e) { sym_assert(d.fail && std::string(e.what()) == "Bad", "err"); } logged();  } break;
    case 8: { auto d = d0.fallible(); Vals<std::unique_ptr<C>> x0(d, 0); exp_slice(x0.slice()); try { auto r = tsm_uobj(x0.slice()); same_slice(r, x0.slice()); sym_assert(!d.fail, "ok"); } catch (const rust::Error &e) { sym_assert(d.fail && std::string(e.what()) == "Bad", "err"); } logged(); seen_slice(x0.slice(), d); } break;
    case 9: { auto &d = d0; Vals<En> x0(d, 0); exp_slice(x0.slice()); auto x1 = val<uint32_t>(d, 1); exp_(x1); Vals<En> x2(d, 2); exp_slice(x2.slice()); s_en(x0.cslice(), std::move(x1), x2.cslice()); logged();  } break;
    case 10: { auto &d = d0; Vals<En> x0(d, 0); exp_slice(x0.slice()); sm_en(x0.slice()); logged(); seen_slice(x0.slice(), d); } break;
    case 11: { auto &d = d0; Vals<En> x0(d, 0); exp_slice(x0.slice()); auto r = ss_en(x0.cslice()); same_slice(r, x0.slice()); logged();  } break;
    case 12: { auto &d = d0; Vals<En> x0(d, 0); exp_slice(x0.slice()); auto r = sms_en(x0.slice()); same_slice(r, x0.slice()); logged(); seen_slice(x0.slice(), d); } break;
    case 13: { auto d = d0.fallible(); Vals<En> x0(d, 0); exp_slice(x0.slice()); try { auto r = ts_en(x0.cslice()); same_slice(r, x0.slice()); sym_assert(!d.fail, "ok"); } catch (const rust::Error &e) { sym_assert(d.fail && std::string(e.what()) == "Bad", "err"); } logged();  } break;
    case 14: { auto d = d0.fallible(); Vals<En> x0(d, 0); exp_slice(x0.slice()); try { auto r = tsm_en(x0.slice()); same_slice(r, x0.slice()); sym_assert(!d.fail, "ok"); } catch (const rust::Error &e) { sym_assert(d.fail && std::string(e.what()) == "Bad", "err"); } logged(); seen_slice(x0.slice(), d); } break;
    case 15: { auto &d = d0; Vals<T3> x0(d, 0); exp_slice(x0.slice()); auto x1 = val<uint32_t>(d, 1); exp_(x1); Vals<T3> x2(d, 2); exp_slice(x2.slice()); s_t3(x0.cslice(), std::move(x1), x2.cslice()); logged();  } break;
    case 16: { auto &d = d0; Vals<T3> x0(d, 0); exp_slice(x0.slice()); sm_t3(x0.slice()); logged(); seen_slice(x0.slice(), d); } break;
    case 17: { auto &d = d0; Vals<T3> x0(d, 0); exp_slice(x0.slice()); auto r = ss_t3(x0.cslice()); same_slice(r, x0.slice()); logged();  } break;
    case 18: { auto &d = d0; Vals<T3> x0(d, 0); exp_slice(x0.slice()); auto r = sms_t3(x0.slice()); same_slice(r, x0.slice()); logged(); seen_slice(x0.slice(), d); } break;
    case 19: { auto d = d0.fallible(); Vals<T3> x0(d, 0); exp_slice(x0.slice()); try { auto r = ts_t3(x0.cslice()); same_slice(r, x0.slice()); sym_assert(!d.fail, "ok"); } catch (const rust::Error &e) { sym_assert(d.fail && std::string(e.what()) == "Bad", "err"); } logged();  } break;
    case 20: { auto d = d0.fallible(); Vals<T3> x0(d, 0); exp_slice(x0.slice()); try { auto r = tsm_t3(x0.slice()); same_slice(r, x0.slice()); sym_assert(!d.fail, "ok"); } catch (const rust::Error &e) { sym_assert(d.fail && std::string(e.what()) == "Bad", "err"); } logged(); seen_slice(x0.slice(), d); } break;
    case 21: { auto &d = d0; auto x0 = (const uint8_t *)val<uint64_t>(d, 0); expa((size_t)x0); auto x1 = (uint8_t *)val<uint64_t>(d, 1); expa((size_t)x1); auto r = p_u8(x0, x1); sym_assert(r == x0, "returned-pointer"); logged();  } break;
    case 22: { auto &d = d0; auto x0 = (uint8_t *)val<uint64_t>(d, 0); expa((size_t)x0); auto x1 = (const uint8_t *)val<uint64_t>(d, 1); expa((size_t)x1); auto r = pm_u8(x0, x1); sym_assert(r == x0, "returned-pointer"); logged();  } break;
    case 23: { auto d = d0.fallible(); auto x0 = (const uint8_t *)val<uint64_t>(d, 0); expa((size_t)x0); try { auto r = tp_u8(x0); sym_assert(r == x0, "returned-pointer"); sym_assert(!d.fail, "ok"); } catch (const rust::Error &e) { sym_assert(d.fail && std::string(e.what()) == "Bad", "err"); } logged();  } break;
} }); }
extern "C" void h_22() { run([](const Data &d0) { switch (sym_choice(24, "function")) {
    case 0: { auto d = d0.fallible(); auto x0 = (uint8_t *)val<uint64_t>(d, 0); expa((size_t)x0); try { auto r = tpm_u8(x0); sym_assert(r == x0, "returned-pointer"); sym_assert(!d.fail, "ok"); } catch (const rust::Error &e) { sym_assert(d.fail && std::string(e.what()) == "Bad", "err"); } logged();  } break;
    case 1: { auto &d = d0; auto x0 = (const P2 *)val<uint64_t>(d, 0); expa((size_t)x0); auto x1 = (P2 *)val<uint64_t>(d, 1); expa((size_t)x1); auto r = p_p2(x0, x1); sym_assert(r == x0, "returned-pointer"); logged();  } break;
    case 2: { auto &d = d0; auto x0 = (P2 *)val<uint64_t>(d, 0); expa((size_t)x0); auto x1 = (const P2 *)val<uint64_t>(d, 1); expa((size_t)x1); auto r = pm_p2(x0, x1); sym_assert(r == x0, "returned-pointer"); logged();  } break;
    case 3: { auto d = d0.fallible(); auto x0 = (const P2 *)val<uint64_t>(d, 0); expa((size_t)x0); try { auto r = tp_p2(x0); sym_assert(r == x0, "returned-pointer"); sym_assert(!d.fail, "ok"); } catch (const rust::Error &e) { sym_assert(d.fail && std::string(e.what()) == "Bad", "err"); } logged();  } break;
    case 4: { auto d = d0.fallible(); auto x0 = (P2 *)val<uint64_t>(d, 0); expa((size_t)x0); try { auto r = tpm_p2(x0); sym_assert(r == x0, "returned-pointer"); sym_assert(!d.fail, "ok"); } catch (const rust::Error &e) { sym_assert(d.fail && std::string(e.what()) == "Bad", "err"); } logged();  } break;
    case 5: { auto &d = d0; auto x0 = (const N *)val<uint64_t>(d, 0); expa((size_t)x0); auto x1 = (N *)val<uint64_t>(d, 1); expa((size_t)x1); auto r = p_n(x0, x1); sym_assert(r == x0, "returned-pointer"); logged();  } break;
    case 6: { auto &d = d0; auto x0 = (N *)val<uint64_t>(d, 0); expa((size_t)x0); auto x1 = (const N *)val<uint64_t>(d, 1); expa((size_t)x1); auto r = pm_n(x0, x1); sym_assert(r == x0, "returned-pointer"); logged();  } break;
    case 7: { auto d = d0.fallible(); auto x0 = (const N *)val<uint64_t>(d, 0); expa((size_t)x0); try { auto r = tp_n(x0); sym_assert(r == x0, "returned-pointer"); sym_assert(!d.fail, "ok"); } catch (const rust::Error &e) { sym_assert(d.fail && std::string(e.what()) == "Bad", "err"); } logged();  } break;
    case 8: { auto d = d0.fallible(); auto x0 = (N *)val<uint64_t>(d, 0); expa((size_t)x0); try { auto r = tpm_n(x0); sym_assert(r == x0, "returned-pointer"); sym_assert(!d.fail, "ok"); } catch (const rust::Error &e) { sym_assert(d.fail && std::string(e.what()) == "Bad", "err"); } logged();  } break;
    case 9: { auto &d = d0; auto x0 = (const C *)val<uint64_t>(d, 0); expa((size_t)x0); auto x1 = (C *)val<uint64_t>(d, 1); expa((size_t)x1); auto r = p_c(x0, x1); sym_assert(r == x0, "returned-pointer"); logged();  } break;
    case 10: { auto &d = d0; auto x0 = (C *)val<uint64_t>(d, 0); expa((size_t)x0); auto x1 = (const C *)val<uint64_t>(d, 1); expa((size_t)x1); auto r = pm_c(x0, x1); sym_assert(r == x0, "returned-pointer"); logged();  } break;
    case 11: { auto d = d0.fallible(); auto x0 = (const C *)val<uint64_t>(d, 0); expa((size_t)x0); try { auto r = tp_c(x0); sym_assert(r == x0, "returned-pointer"); sym_assert(!d.fail, "ok"); } catch (const rust::Error &e) { sym_assert(d.fail && std::string(e.what()) == "Bad", "err"); } logged();  } break;
    case 12: { auto d = d0.fallible(); auto x0 = (C *)val<uint64_t>(d, 0); expa((size_t)x0); try { auto r = tpm_c(x0); sym_assert(r == x0, "returned-pointer"); sym_assert(!d.fail, "ok"); } catch (const rust::Error &e) { sym_assert(d.fail && std::string(e.what()) == "Bad", "err"); } logged();  } break;
    case 13: { auto &d = d0; auto x0 = (const R *)val<uint64_t>(d, 0); expa((size_t)x0); auto x1 = (R *)val<uint64_t>(d, 1); expa((size_t)x1); auto r = p_r(x0, x1); sym_assert(r == x0, "returned-pointer"); logged();  } break;
    case 14: { auto &d = d0; auto x0 = (R *)val<uint64_t>(d, 0); expa((size_t)x0); auto x1 = (const R *)val<uint64_t>(d, 1); expa((size_t)x1); auto r = pm_r(x0, x1); sym_assert(r == x0, "returned-pointer"); logged();  } break;
    case 15: { auto d = d0.fallible(); auto x0 = (const R *)val<uint64_t>(d, 0); expa((size_t)x0); try { auto r = tp_r(x0); sym_assert(r == x0, "returned-pointer"); sym_assert(!d.fail, "ok"); } catch (const rust::Error &e) { sym_assert(d.fail && std::string(e.what()) == "Bad", "err"); } logged();  } break;
    case 16: { auto d = d0.fallible(); auto x0 = (R *)val<uint64_t>(d, 0); expa((size_t)x0); try { auto r = tpm_r(x0); sym_assert(r == x0, "returned-pointer"); sym_assert(!d.fail, "ok"); } catch (const rust::Error &e) { sym_assert(d.fail && std::string(e.what()) == "Bad", "err"); } logged();  } break;
    case 17: { auto &d = d0; auto x0 = (const rust::String *)val<uint64_t>(d, 0); expa((size_t)x0); auto x1 = (rust::String *)val<uint64_t>(d, 1); expa((size_t)x1); auto r = p_string(x0, x1); sym_assert(r == x0, "returned-pointer"); logged();  } break;
    case 18: { auto &d = d0; auto x0 = (rust::String *)val<uint64_t>(d, 0); expa((size_t)x0); auto x1 = (const rust::String *)val<uint64_t>(d, 1); expa((size_t)x1); auto r = pm_string(x0, x1); sym_assert(r == x0, "returned-pointer"); logged();  } break;
    case 19: { auto d = d0.fallible(); auto x0 = (const rust::String *)val<uint64_t>(d, 0); expa((size_t)x0); try { auto r = tp_string(x0); sym_assert(r == x0, "returned-pointer"); sym_assert(!d.fail, "ok"); } catch (const rust::Error &e) { sym_assert(d.fail && std::string(e.what()) == "Bad", "err"); } logged();  } break;
    case 20: { auto d = d0.fallible(); auto x0 = (rust::String *)val<uint64_t>(d, 0); expa((size_t)x0); try { auto r = tpm_string(x0); sym_assert(r == x0, "returned-pointer"); sym_assert(!d.fail, "ok"); } catch (const rust::Error &e) { sym_assert(d.fail && std::string(e.what()) == "Bad", "err"); } logged();  } break;
    case 21: { auto &d = d0; auto x0 = (const rust::Vec<uint8_t> *)val<uint64_t>(d, 0); expa((size_t)x0); auto x1 = (rust::Vec<uint8_t> *)val<uint64_t>(d, 1); expa((size_t)x1); auto r = p_vu8(x0, x1); sym_assert(r == x0, "returned-pointer"); logged();  } break;
    case 22: { auto &d = d0; auto x0 = (rust::Vec<uint8_t> *)val<uint64_t>(d, 0); expa((size_t)x0); auto x1 = (const rust::Vec<uint8_t> *)val<uint64_t>(d, 1); expa((size_t)x1); auto r = pm_vu8(x0, x1); sym_assert(r == x0, "returned-pointer"); logged();  } break;
    case 23: { auto d = d0.fallible(); auto x0 = (const rust::Vec<uint8_t> *)val<uint64_t>(d, 0); expa((size_t)x0); try { auto r = tp_vu8(x0); sym_assert(r == x0, "returned-pointer"); sym_assert(!d.fail, "ok"); } catch (const rust::Error &e) { sym_assert(d.fail && std::string(e.what()) == "Bad", "err"); } logged();  } break;
} }); }
extern "C" void h_23() { run([](const Data &d0) { switch (sym_choice(24, "function")) {
    case 0: { auto d = d0.fallible(); auto x0 = (rust::Vec<uint8_t> *)val<uint64_t>(d, 0); expa((size_t)x0); try { auto r = tpm_vu8(x0); sym_assert(r == x0, "returned-pointer"); sym_assert(!d.fail, "ok"); } catch (const rust::Error &e) { sym_assert(d.fail && std::string(e.what()) == "Bad", "err"); } logged();  } break;
    case 1: { auto &d = d0; auto x0 = val<rust::String>(d, 0); exp_str(rust::Str(x0)); auto x1 = val<bool>(d, 1); exp_(x1); auto x2 = val<rust::String>(d, 2); exp_str(rust::Str(x2)); st(rust::Str(x0), std::move(x1), rust::Str(x2)); logged();  } break;
    case 2: { auto &d = d0; auto x0 = val<rust::String>(d, 0); exp_str(rust::Str(x0)); auto r = sst(rust::Str(x0)); same_str(r, rust::Str(x0)); logged();  } break;
    case 3: { auto d = d0.fallible(); auto x0 = val<rust::String>(d, 0); exp_str(rust::Str(x0)); try { auto r = tst(rust::Str(x0)); same_str(r, rust::Str(x0)); sym_assert(!d.fail, "ok"); } catch (const rust::Error &e) { sym_assert(d.fail && std::string(e.what()) == "Bad", "err"); } logged();  } break;
    case 4: { auto &d = d0; u(); logged();  } break;
    case 5: { auto d = d0.fallible(); try { tu(); sym_assert(!d.fail, "ok"); } catch (const rust::Error &e) { sym_assert(d.fail && std::string(e.what()) == "Bad", "err"); } logged();  } break;
    case 6: { auto &d = d0; auto x0 = val<uint8_t>(d, 0); exp_(x0); auto x1 = val<rust::String>(d, 1); exp_(x1); auto x2 = val<float>(d, 2); exp_(x2); auto x3 = val<P2>(d, 3); exp_(x3); auto x4 = val<std::unique_ptr<C>>(d, 4); exp_(x4); auto x5 = val<uint64_t>(d, 5); exp_(x5); auto x6 = val<rust::Vec<rust::String>>(d, 6); exp_(x6); auto x7 = val<double>(d, 7); exp_(x7); auto x8 = val<En>(d, 8); exp_(x8); auto x9 = val<N>(d, 9); exp_(x9); auto x10 = val<int16_t>(d, 10); exp_(x10); auto x11 = val<Q3>(d, 11); exp_(x11); auto r = mix0(std::move(x0), std::move(x1), std::move(x2), std::move(x3), std::move(x4), std::move(x5), std::move(x6), std::move(x7), std::move(x8), std::move(x9), std::move(x10), std::move(x11)); same(r, d); logged();  } break;
    case 7: { auto d = d0.fallible(); auto x0 = val<uint8_t>(d, 0); exp_(x0); auto x1 = val<rust::String>(d, 1); exp_(x1); auto x2 = val<float>(d, 2); exp_(x2); auto x3 = val<P2>(d, 3); exp_(x3); auto x4 = val<std::unique_ptr<C>>(d, 4); exp_(x4); auto x5 = val<uint64_t>(d, 5); exp_(x5); auto x6 = val<rust::Vec<rust::String>>(d, 6); exp_(x6); auto x7 = val<double>(d, 7); exp_(x7); auto x8 = val<En>(d, 8); exp_(x8); auto x9 = val<N>(d, 9); exp_(x9); auto x10 = val<int16_t>(d, 10); exp_(x10); auto x11 = val<Q3>(d, 11); exp_(x11); try { auto r = tmix0(std::move(x0), std::move(x1), std::move(x2), std::move(x3), std::move(x4), std::move(x5), std::move(x6), std::move(x7), std::move(x8), std::move(x9), std::move(x10), std::move(x11)); same(r, d); sym_assert(!d.fail, "ok"); } catch (const rust::Error &e) { sym_assert(d.fail && std::string(e.what()) == "Bad", "err"); } logged();  } break;
    case 8: { auto &d = d0; auto x0 = val<double>(d, 0); exp_(x0); auto x1 = val<double>(d, 1); exp_(x1); auto x2 = val<double>(d, 2); exp_(x2); auto x3 = val<double>(d, 3); exp_(x3); auto x4 = val<double>(d, 4); exp_(x4); auto x5 = val<double>(d, 5); exp_(x5); auto x6 = val<double>(d, 6); exp_(x6); auto x7 = val<double>(d, 7); exp_(x7); auto x8 = val<double>(d, 8); exp_(x8); auto x9 = val<double>(d, 9); exp_(x9); auto r = mix1(std::move(x0), std::move(x1), std::move(x2), std::move(x3), std::move(x4), std::move(x5), std::move(x6), std::move(x7), std::move(x8), std::move(x9)); same(r, d); logged();  } break;
    case 9: { auto d = d0.fallible(); auto x0 = val<double>(d, 0); exp_(x0); auto x1 = val<double>(d, 1); exp_(x1); auto x2 = val<double>(d, 2); exp_(x2); auto x3 = val<double>(d, 3); exp_(x3); auto x4 = val<double>(d, 4); exp_(x4); auto x5 = val<double>(d, 5); exp_(x5); auto x6 = val<double>(d, 6); exp_(x6); auto x7 = val<double>(d, 7); exp_(x7); auto x8 = val<double>(d, 8); exp_(x8); auto x9 = val<double>(d, 9); exp_(x9); try { auto r = tmix1(std::move(x0), std::move(x1), std::move(x2), std::move(x3), std::move(x4), std::move(x5), std::move(x6), std::move(x7), std::move(x8), std::move(x9)); same(r, d); sym_assert(!d.fail, "ok"); } catch (const rust::Error &e) { sym_assert(d.fail && std::string(e.what()) == "Bad", "err"); } logged();  } break;
    case 10: { auto &d = d0; auto x0 = val<uint64_t>(d, 0); exp_(x0); auto x1 = val<uint64_t>(d, 1); exp_(x1); auto x2 = val<uint64_t>(d, 2); exp_(x2); auto x3 = val<uint64_t>(d, 3); exp_(x3); auto x4 = val<uint64_t>(d, 4); exp_(x4); auto x5 = val<uint64_t>(d, 5); exp_(x5); auto x6 = val<uint64_t>(d, 6); exp_(x6); auto x7 = val<uint64_t>(d, 7); exp_(x7); auto x8 = val<uint64_t>(d, 8); exp_(x8); auto r = mix2(std::move(x0), std::move(x1), std::move(x2), std::move(x3), std::move(x4), std::move(x5), std::move(x6), std::move(x7), std::move(x8)); same(r, d); logged();  } break;
    case 11: { auto d = d0.fallible(); auto x0 = val<uint64_t>(d, 0); exp_(x0); auto x1 = val<uint64_t>(d, 1); exp_(x1); auto x2 = val<uint64_t>(d, 2); exp_(x2); auto x3 = val<uint64_t>(d, 3); exp_(x3); auto x4 = val<uint64_t>(d, 4); exp_(x4); auto x5 = val<uint64_t>(d, 5); exp_(x5); auto x6 = val<uint64_t>(d, 6); exp_(x6); auto x7 = val<uint64_t>(d, 7); exp_(x7); auto x8 = val<uint64_t>(d, 8); exp_(x8); try { auto r = tmix2(std::move(x0), std::move(x1), std::move(x2), std::move(x3), std::move(x4), std::move(x5), std::move(x6), std::move(x7), std::move(x8)); same(r, d); sym_assert(!d.fail, "ok"); } catch (const rust::Error &e) { sym_assert(d.fail && std::string(e.what()) == "Bad", "err"); } logged();  } break;
    case 12: { auto &d = d0; auto x0 = val<bool>(d, 0); exp_(x0); auto x1 = val<uint8_t>(d, 1); exp_(x1); auto x2 = val<bool>(d, 2); exp_(x2); auto x3 = val<int8_t>(d, 3); exp_(x3); auto x4 = val<char>(d, 4); exp_(x4); auto x5 = val<uint16_t>(d, 5); exp_(x5); auto x6 = val<int16_t>(d, 6); exp_(x6); auto x7 = val<bool>(d, 7); exp_(x7); auto r = mix3(std::move(x0), std::move(x1), std::move(x2), std::move(x3), std::move(x4), std::move(x5), std::move(x6), std::move(x7)); same(r, d); logged();  } break;
    case 13: { auto d = d0.fallible(); auto x0 = val<bool>(d, 0); exp_(x0); auto x1 = val<uint8_t>(d, 1); exp_(x1); auto x2 = val<bool>(d, 2); exp_(x2); auto x3 = val<int8_t>(d, 3); exp_(x3); auto x4 = val<char>(d, 4); exp_(x4); auto x5 = val<uint16_t>(d, 5); exp_(x5); auto x6 = val<int16_t>(d, 6); exp_(x6); auto x7 = val<bool>(d, 7); exp_(x7); try { auto r = tmix3(std::move(x0), std::move(x1), std::move(x2), std::move(x3), std::move(x4), std::move(x5), std::move(x6), std::move(x7)); same(r, d); sym_assert(!d.fail, "ok"); } catch (const rust::Error &e) { sym_assert(d.fail && std::string(e.what()) == "Bad", "err"); } logged();  } break;
    case 14: { auto &d = d0; auto x0 = val<F2>(d, 0); exp_(x0); auto x1 = val<FI>(d, 1); exp_(x1); auto x2 = val<Q2>(d, 2); exp_(x2); auto x3 = val<D4>(d, 3); exp_(x3); auto x4 = val<P1>(d, 4); exp_(x4); auto x5 = val<float>(d, 5); exp_(x5); auto x6 = val<Q2>(d, 6); exp_(x6); auto x7 = val<Q2>(d, 7); exp_(x7); auto x8 = val<uint8_t>(d, 8); exp_(x8); auto r = mix4(std::move(x0), std::move(x1), std::move(x2), std::move(x3), std::move(x4), std::move(x5), std::move(x6), std::move(x7), std::move(x8)); same(r, d); logged();  } break;
    case 15: { auto d = d0.fallible(); auto x0 = val<F2>(d, 0); exp_(x0); auto x1 = val<FI>(d, 1); exp_(x1); auto x2 = val<Q2>(d, 2); exp_(x2); auto x3 = val<D4>(d, 3); exp_(x3); auto x4 = val<P1>(d, 4); exp_(x4); auto x5 = val<float>(d, 5); exp_(x5); auto x6 = val<Q2>(d, 6); exp_(x6); auto x7 = val<Q2>(d, 7); exp_(x7); auto x8 = val<uint8_t>(d, 8); exp_(x8); try { auto r = tmix4(std::move(x0), std::move(x1), std::move(x2), std::move(x3), std::move(x4), std::move(x5), std::move(x6), std::move(x7), std::move(x8)); same(r, d); sym_assert(!d.fail, "ok"); } catch (const rust::Error &e) { sym_assert(d.fail && std::string(e.what()) == "Bad", "err"); } logged();  } break;
    case 16: { auto &d = d0; auto x0 = val<N>(d, 0); exp_(x0); auto x1 = val<N>(d, 1); exp_(x1); auto x2 = val<rust::String>(d, 2); exp_(x2); auto x3 = val<rust::String>(d, 3); exp_(x3); auto x4 = val<rust::Box<R>>(d, 4); exp_(x4); auto x5 = val<rust::Box<R>>(d, 5); exp_(x5); auto x6 = val<std::shared_ptr<C>>(d, 6); exp_(x6); auto x7 = val<std::weak_ptr<C>>(d, 7); exp_(x7); auto r = mix5(std::move(x0), std::move(x1), std::move(x2), std::move(x3), std::move(x4), std::move(x5), std::move(x6), std::move(x7)); same(r, d); logged();  } break;
    case 17: { auto d = d0.fallible(); auto x0 = val<N>(d, 0); exp_(x0); auto x1 = val<N>(d, 1); exp_(x1); auto x2 = val<rust::String>(d, 2); exp_(x2); auto x3 = val<rust::String>(d, 3); exp_(x3); auto x4 = val<rust::Box<R>>(d, 4); exp_(x4); auto x5 = val<rust::Box<R>>(d, 5); exp_(x5); auto x6 = val<std::shared_ptr<C>>(d, 6); exp_(x6); auto x7 = val<std::weak_ptr<C>>(d, 7); exp_(x7); try { auto r = tmix5(std::move(x0), std::move(x1), std::move(x2), std::move(x3), std::move(x4), std::move(x5), std::move(x6), std::move(x7)); same(r, d); sym_assert(!d.fail, "ok"); } catch (const rust::Error &e) { sym_assert(d.fail && std::string(e.what()) == "Bad", "err"); } logged();  } break;
    case 18: { auto &d = d0; auto x0 = val<T1>(d, 0); exp_(x0); auto x1 = val<T3>(d, 1); exp_(x1); auto x2 = val<Tx>(d, 2); exp_(x2); auto x3 = val<T1>(d, 3); exp_(x3); auto x4 = val<uint32_t>(d, 4); exp_(x4); auto x5 = val<T3>(d, 5); exp_(x5); auto r = mix6(std::move(x0), std::move(x1), std::move(x2), std::move(x3), std::move(x4), std::move(x5)); same(r, d); logged();  } break;
    case 19: { auto d = d0.fallible(); auto x0 = val<T1>(d, 0); exp_(x0); auto x1 = val<T3>(d, 1); exp_(x1); auto x2 = val<Tx>(d, 2); exp_(x2); auto x3 = val<T1>(d, 3); exp_(x3); auto x4 = val<uint32_t>(d, 4); exp_(x4); auto x5 = val<T3>(d, 5); exp_(x5); try { auto r = tmix6(std::move(x0), std::move(x1), std::move(x2), std::move(x3), std::move(x4), std::move(x5)); same(r, d); sym_assert(!d.fail, "ok"); } catch (const rust::Error &e) { sym_assert(d.fail && std::string(e.what()) == "Bad", "err"); } logged();  } break;
    case 20: { auto &d = d0; Own<N> x0(d, 0); expa(x0.addr()); exp_(x0.get()); auto x1 = val<N>(d, 1); exp_(x1); Own<rust::String> x2(d, 2); expa(x2.addr()); exp_(x2.get()); auto x3 = val<rust::String>(d, 3); exp_str(rust::Str(x3)); Vals<uint8_t> x4(d, 4); exp_slice(x4.slice()); Own<C> x5(d, 5); expa(x5.addr()); exp_(x5.get()); auto x6 = val<std::unique_ptr<C>>(d, 6); exp_(x6); auto r = mixr(x0.get(), std::move(x1), x2.get(), rust::Str(x3), x4.cslice(), x5.get(), std::move(x6)); same(r, d); logged(); seen(x2.get(), d); seen(x5.get(), d); } break;
    case 21: { auto d = d0.fallible(); Own<N> x0(d, 0); expa(x0.addr()); exp_(x0.get()); auto x1 = val<rust::String>(d, 1); exp_str(rust::Str(x1)); auto x2 = val<rust::String>(d, 2); exp_(x2); Own<rust::String> x3(d, 3); expa(x3.addr()); exp_(x3.get()); Vals<P2> x4(d, 4); exp_slice(x4.slice()); try { auto r = tmixr(x0.get(), rust::Str(x1), std::move(x2), x3.get(), x4.slice()); same(r, d); sym_assert(!d.fail, "ok"); } catch (const rust::Error &e) { sym_assert(d.fail && std::string(e.what()) == "Bad", "err"); } logged(); seen(x0.get(), d); seen_slice(x4.slice(), d); } break;
    case 22: { auto &d = d0; Own<P2> s(d, 7); expa(s.addr()); exp_(s.get()); auto x0 = val<uint32_t>(d, 0); exp_(x0); auto r = ((const P2 &)s.get()).q0_p2(std::move(x0)); same(r, d); logged();  } break;
    case 23: { auto &d = d0; Own<P2> s(d, 7); expa(s.addr()); exp_(s.get()); auto x0 = val<rust::String>(d, 0); exp_(x0); auto x1 = val<N>(d, 1); exp_(x1); auto r = ((const P2 &)s.get()).Q1p2(std::move(x0), std::move(x1)); same(r, d); logged();  } break;
} }); }
extern "C" void h_24() { run([](const Data &d0) { switch (sym_choice(24, "function")) {
    case 0: { auto &d = d0; Own<P2> s(d, 7); expa(s.addr()); exp_(s.get()); auto x0 = val<rust::String>(d, 0); exp_str(rust::Str(x0)); Own<N> x1(d, 1); expa(x1.addr()); exp_(x1.get()); ((const P2 &)s.get()).q2_p2(rust::Str(x0), x1.get()); logged();  } break;
    case 1: { auto d = d0.fallible(); Own<P2> s(d, 7); expa(s.addr()); exp_(s.get()); auto x0 = val<double>(d, 0); exp_(x0); auto x1 = val<F2>(d, 1); exp_(x1); try { auto r = ((const P2 &)s.get()).Q3p2(std::move(x0), std::move(x1)); same(r, d); sym_assert(!d.fail, "ok"); } catch (const rust::Error &e) { sym_assert(d.fail && std::string(e.what()) == "Bad", "err"); } logged();  } break;
    case 2: { auto d = d0.fallible(); Own<P2> s(d, 7); expa(s.addr()); exp_(s.get()); auto x0 = val<rust::Box<R>>(d, 0); exp_(x0); try { ((const P2 &)s.get()).q4_p2(std::move(x0)); sym_assert(!d.fail, "ok"); } catch (const rust::Error &e) { sym_assert(d.fail && std::string(e.what()) == "Bad", "err"); } logged();  } break;
    case 3: { auto &d = d0; Own<P2> s(d, 7); expa(s.addr()); exp_(s.get()); auto r = ((const P2 &)s.get()).Q5p2(); same(r, d); logged();  } break;
    case 4: { auto &d = d0; Own<P2> s(d, 7); expa(s.addr()); exp_(s.get()); auto x0 = val<Q2>(d, 0); exp_(x0); auto x1 = val<Q3>(d, 1); exp_(x1); auto r = ((const P2 &)s.get()).q6_p2(std::move(x0), std::move(x1)); same(r, d); logged();  } break;
    case 5: { auto &d = d0; Own<P2> s(d, 7); expa(s.addr()); exp_(s.get()); auto x0 = val<uint32_t>(d, 0); exp_(x0); auto r = s.get().q0_p2m(std::move(x0)); same(r, d); logged(); seen(s.get(), d); } break;
    case 6: { auto &d = d0; Own<P2> s(d, 7); expa(s.addr()); exp_(s.get()); auto x0 = val<rust::String>(d, 0); exp_(x0); auto x1 = val<N>(d, 1); exp_(x1); auto r = s.get().Q1p2m(std::move(x0), std::move(x1)); same(r, d); logged(); seen(s.get(), d); } break;
    case 7: { auto &d = d0; Own<P2> s(d, 7); expa(s.addr()); exp_(s.get()); auto x0 = val<rust::String>(d, 0); exp_str(rust::Str(x0)); Own<N> x1(d, 1); expa(x1.addr()); exp_(x1.get()); s.get().q2_p2m(rust::Str(x0), x1.get()); logged(); seen(s.get(), d); } break;
    case 8: { auto d = d0.fallible(); Own<P2> s(d, 7); expa(s.addr()); exp_(s.get()); auto x0 = val<double>(d, 0); exp_(x0); auto x1 = val<F2>(d, 1); exp_(x1); try { auto r = s.get().Q3p2m(std::move(x0), std::move(x1)); same(r, d); sym_assert(!d.fail, "ok"); } catch (const rust::Error &e) { sym_assert(d.fail && std::string(e.what()) == "Bad", "err"); } logged(); seen(s.get(), d); } break;
    case 9: { auto d = d0.fallible(); Own<P2> s(d, 7); expa(s.addr()); exp_(s.get()); auto x0 = val<rust::Box<R>>(d, 0); exp_(x0); try { s.get().q4_p2m(std::move(x0)); sym_assert(!d.fail, "ok"); } catch (const rust::Error &e) { sym_assert(d.fail && std::string(e.what()) == "Bad", "err"); } logged(); seen(s.get(), d); } break;
    case 10: { auto &d = d0; Own<P2> s(d, 7); expa(s.addr()); exp_(s.get()); auto r = s.get().Q5p2m(); same(r, d); logged(); seen(s.get(), d); } break;
    case 11: { auto &d = d0; Own<P2> s(d, 7); expa(s.addr()); exp_(s.get()); auto x0 = val<Q2>(d, 0); exp_(x0); auto x1 = val<Q3>(d, 1); exp_(x1); auto r = s.get().q6_p2m(std::move(x0), std::move(x1)); same(r, d); logged(); seen(s.get(), d); } break;
    case 12: { auto &d = d0; Own<N> s(d, 7); expa(s.addr()); exp_(s.get()); auto x0 = val<uint32_t>(d, 0); exp_(x0); auto r = ((const N &)s.get()).q0_n(std::move(x0)); same(r, d); logged();  } break;
    case 13: { auto &d = d0; Own<N> s(d, 7); expa(s.addr()); exp_(s.get()); auto x0 = val<rust::String>(d, 0); exp_(x0); auto x1 = val<N>(d, 1); exp_(x1); auto r = ((const N &)s.get()).Q1n(std::move(x0), std::move(x1)); same(r, d); logged();  } break;
    case 14: { auto &d = d0; Own<N> s(d, 7); expa(s.addr()); exp_(s.get()); auto x0 = val<rust::String>(d, 0); exp_str(rust::Str(x0)); Own<N> x1(d, 1); expa(x1.addr()); exp_(x1.get()); ((const N &)s.get()).q2_n(rust::Str(x0), x1.get()); logged();  } break;
    case 15: { auto d = d0.fallible(); Own<N> s(d, 7); expa(s.addr()); exp_(s.get()); auto x0 = val<double>(d, 0); exp_(x0); auto x1 = val<F2>(d, 1); exp_(x1); try { auto r = ((const N &)s.get()).Q3n(std::move(x0), std::move(x1)); same(r, d); sym_assert(!d.fail, "ok"); } catch (const rust::Error &e) { sym_assert(d.fail && std::string(e.what()) == "Bad", "err"); } logged();  } break;
    case 16: { auto d = d0.fallible(); Own<N> s(d, 7); expa(s.addr()); exp_(s.get()); auto x0 = val<rust::Box<R>>(d, 0); exp_(x0); try { ((const N &)s.get()).q4_n(std::move(x0)); sym_assert(!d.fail, "ok"); } catch (const rust::Error &e) { sym_assert(d.fail && std::string(e.what()) == "Bad", "err"); } logged();  } break;
    case 17: { auto &d = d0; Own<N> s(d, 7); expa(s.addr()); exp_(s.get()); auto r = ((const N &)s.get()).Q5n(); same(r, d); logged();  } break;
    case 18: { auto &d = d0; Own<N> s(d, 7); expa(s.addr()); exp_(s.get()); auto x0 = val<Q2>(d, 0); exp_(x0); auto x1 = val<Q3>(d, 1); exp_(x1); auto r = ((const N &)s.get()).q6_n(std::move(x0), std::move(x1)); same(r, d); logged();  } break;
    case 19: { auto &d = d0; Own<N> s(d, 7); expa(s.addr()); exp_(s.get()); auto x0 = val<uint32_t>(d, 0); exp_(x0); auto r = s.get().q0_nm(std::move(x0)); same(r, d); logged(); seen(s.get(), d); } break;
    case 20: { auto &d = d0; Own<N> s(d, 7); expa(s.addr()); exp_(s.get()); auto x0 = val<rust::String>(d, 0); exp_(x0); auto x1 = val<N>(d, 1); exp_(x1); auto r = s.get().Q1nm(std::move(x0), std::move(x1)); same(r, d); logged(); seen(s.get(), d); } break;
    case 21: { auto &d = d0; Own<N> s(d, 7); expa(s.addr()); exp_(s.get()); auto x0 = val<rust::String>(d, 0); exp_str(rust::Str(x0)); Own<N> x1(d, 1); expa(x1.addr()); exp_(x1.get()); s.get().q2_nm(rust::Str(x0), x1.get()); logged(); seen(s.get(), d); } break;
    case 22: { auto d = d0.fallible(); Own<N> s(d, 7); expa(s.addr()); exp_(s.get()); auto x0 = val<double>(d, 0); exp_(x0); auto x1 = val<F2>(d, 1); exp_(x1); try { auto r = s.get().Q3nm(std::move(x0), std::move(x1)); same(r, d); sym_assert(!d.fail, "ok"); } catch (const rust::Error &e) { sym_assert(d.fail && std::string(e.what()) == "Bad", "err"); } logged(); seen(s.get(), d); } break;
    case 23: { auto d = d0.fallible(); Own<N> s(d, 7); expa(s.addr()); exp_(s.get()); auto x0 = val<rust::Box<R>>(d, 0); exp_(x0); try { s.get().q4_nm(std::move(x0)); sym_assert(!d.fail, "ok"); } catch (const rust::Error &e) { sym_assert(d.fail && std::string(e.what()) == "Bad", "err"); } logged(); seen(s.get(), d); } break;
} }); }
extern "C" void h_25() { run([](const Data &d0) { switch (sym_choice(16, "function")) {
    case 0: { auto &d = d0; Own<N> s(d, 7); expa(s.addr()); exp_(s.get()); auto r = s.get().Q5nm(); same(r, d); logged(); seen(s.get(), d); } break;
    case 1: { auto &d = d0; Own<N> s(d, 7); expa(s.addr()); exp_(s.get()); auto x0 = val<Q2>(d, 0); exp_(x0); auto x1 = val<Q3>(d, 1); exp_(x1); auto r = s.get().q6_nm(std::move(x0), std::move(x1)); same(r, d); logged(); seen(s.get(), d); } break;
    case 2: { auto &d = d0; Own<R> s(d, 7); expa(s.addr()); exp_(s.get()); auto x0 = val<uint32_t>(d, 0); exp_(x0); auto r = ((const R &)s.get()).q0_r(std::move(x0)); same(r, d); logged();  } break;
    case 3: { auto &d = d0; Own<R> s(d, 7); expa(s.addr()); exp_(s.get()); auto x0 = val<rust::String>(d, 0); exp_(x0); auto x1 = val<N>(d, 1); exp_(x1); auto r = ((const R &)s.get()).Q1r(std::move(x0), std::move(x1)); same(r, d); logged();  } break;
    case 4: { auto &d = d0; Own<R> s(d, 7); expa(s.addr()); exp_(s.get()); auto x0 = val<rust::String>(d, 0); exp_str(rust::Str(x0)); Own<N> x1(d, 1); expa(x1.addr()); exp_(x1.get()); ((const R &)s.get()).q2_r(rust::Str(x0), x1.get()); logged();  } break;
    case 5: { auto d = d0.fallible(); Own<R> s(d, 7); expa(s.addr()); exp_(s.get()); auto x0 = val<double>(d, 0); exp_(x0); auto x1 = val<F2>(d, 1); exp_(x1); try { auto r = ((const R &)s.get()).Q3r(std::move(x0), std::move(x1)); same(r, d); sym_assert(!d.fail, "ok"); } catch (const rust::Error &e) { sym_assert(d.fail && std::string(e.what()) == "Bad", "err"); } logged();  } break;
    case 6: { auto d = d0.fallible(); Own<R> s(d, 7); expa(s.addr()); exp_(s.get()); auto x0 = val<rust::Box<R>>(d, 0); exp_(x0); try { ((const R &)s.get()).q4_r(std::move(x0)); sym_assert(!d.fail, "ok"); } catch (const rust::Error &e) { sym_assert(d.fail && std::string(e.what()) == "Bad", "err"); } logged();  } break;
    case 7: { auto &d = d0; Own<R> s(d, 7); expa(s.addr()); exp_(s.get()); auto r = ((const R &)s.get()).Q5r(); same(r, d); logged();  } break;
    case 8: { auto &d = d0; Own<R> s(d, 7); expa(s.addr()); exp_(s.get()); auto x0 = val<Q2>(d, 0); exp_(x0); auto x1 = val<Q3>(d, 1); exp_(x1); auto r = ((const R &)s.get()).q6_r(std::move(x0), std::move(x1)); same(r, d); logged();  } break;
    case 9: { auto &d = d0; Own<R> s(d, 7); expa(s.addr()); exp_(s.get()); auto x0 = val<uint32_t>(d, 0); exp_(x0); auto r = s.get().q0_rm(std::move(x0)); same(r, d); logged(); seen(s.get(), d); } break;
    case 10: { auto &d = d0; Own<R> s(d, 7); expa(s.addr()); exp_(s.get()); auto x0 = val<rust::String>(d, 0); exp_(x0); auto x1 = val<N>(d, 1); exp_(x1); auto r = s.get().Q1rm(std::move(x0), std::move(x1)); same(r, d); logged(); seen(s.get(), d); } break;
    case 11: { auto &d = d0; Own<R> s(d, 7); expa(s.addr()); exp_(s.get()); auto x0 = val<rust::String>(d, 0); exp_str(rust::Str(x0)); Own<N> x1(d, 1); expa(x1.addr()); exp_(x1.get()); s.get().q2_rm(rust::Str(x0), x1.get()); logged(); seen(s.get(), d); } break;
    case 12: { auto d = d0.fallible(); Own<R> s(d, 7); expa(s.addr()); exp_(s.get()); auto x0 = val<double>(d, 0); exp_(x0); auto x1 = val<F2>(d, 1); exp_(x1); try { auto r = s.get().Q3rm(std::move(x0), std::move(x1)); same(r, d); sym_assert(!d.fail, "ok"); } catch (const rust::Error &e) { sym_assert(d.fail && std::string(e.what()) == "Bad", "err"); } logged(); seen(s.get(), d); } break;
    case 13: { auto d = d0.fallible(); Own<R> s(d, 7); expa(s.addr()); exp_(s.get()); auto x0 = val<rust::Box<R>>(d, 0); exp_(x0); try { s.get().q4_rm(std::move(x0)); sym_assert(!d.fail, "ok"); } catch (const rust::Error &e) { sym_assert(d.fail && std::string(e.what()) == "Bad", "err"); } logged(); seen(s.get(), d); } break;
    case 14: { auto &d = d0; Own<R> s(d, 7); expa(s.addr()); exp_(s.get()); auto r = s.get().Q5rm(); same(r, d); logged(); seen(s.get(), d); } break;
    case 15: { auto &d = d0; Own<R> s(d, 7); expa(s.addr()); exp_(s.get()); auto x0 = val<Q2>(d, 0); exp_(x0); auto x1 = val<Q3>(d, 1); exp_(x1); auto r = s.get().q6_rm(std::move(x0), std::move(x1)); same(r, d); logged(); seen(s.get(), d); } break;
} }); }
