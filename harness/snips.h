// Uses of every header of the library: SNIP (name, the headers it needs, what it does)
// The text of each is compiled into generated programs as well as here.
SNIP (affine, "spoc/affine.h spoc/point.h", { std::vector<spoc::point::point<double>> p { { 1, 2, 3 } }; spoc::affine::rotate_z (p, 30); spoc::affine::scale_x (p, 2); spoc::affine::add_y (p, 0.5); out << p[0]; })
SNIP (field_name, "spoc/app_utils.h", { for (const char *n : { "x", "e12", "q", "e", "r" }) out << spoc::app_utils::is_extra_field (n) << spoc::app_utils::check_field_name (n); out << spoc::app_utils::get_extra_index ("e17"); })
SNIP (consume, "spoc/app_utils.h", { std::string s = "e3,17,2.5"; out << spoc::app_utils::consume_field_name (s) << ';'; s = s.substr (s[0] == ','); out << spoc::app_utils::consume_int (s) << ';'; s = s.substr (s[0] == ','); out << spoc::app_utils::consume_double (s) << ';' << s; })
SNIP (consume_list, "spoc/app_utils.h", { std::string s = "3,14,15"; for (auto v : spoc::app_utils::consume_ints (s)) out << v << ';'; out << s; })
SNIP (streams, "spoc/app_utils.h", { try { spoc::app_utils::input_stream is (false, "/nonexistent/file"); out << "opened"; } catch (const std::exception &) { out << "refused"; } })
SNIP (asprs, "spoc/asprs.h", { auto m = spoc::asprs::get_asprs_class_map (); for (int k = 0; k < 256; ++k) { auto i = m.find (k); if (i != m.end ()) out << i->second.size () << ' '; } })
SNIP (timer, "spoc/benchmark_utils.h", { spoc::benchmark_utils::timer t; t.start (); t.stop (); out << (t.elapsed_ms () >= 0); })
SNIP (help, "spoc/cmd.h", { option o[] = { { "help", 0, 0, 'h' }, { "verbose", 0, 0, 'v' }, { "wide", 1, 0, 'w' } }; spoc::cmd::print_help (out, "usage", 3, o); })
SNIP (compress, "spoc/compression.h", { std::vector<uint8_t> v (3000); for (size_t k = 0; k < v.size (); ++k) v[k] = uint8_t (k * k / 100); const auto z = spoc::compression::compress (v); out << z.size () << (spoc::compression::decompress (z) == v); std::vector<uint8_t> w (v.size ()); spoc::compression::decompress (z, &w[0], w.size ()); out << (w == v); })
SNIP (compress_stream, "spoc/compression.h", { std::stringstream a ("aaaaaaaaaaaaaabbbbbbbbbbbbbbbb"), b, c; spoc::compression::compress (a, b, 6); spoc::compression::decompress (b, c); out << c.str (); })
SNIP (zlib_error, "spoc/compression.h", { for (int k = -7; k < 3; ++k) out << spoc::compression::zlib_error_string (k) << ';'; })
SNIP (contract, "spoc/contracts.h", { const int k = 3; REQUIRE (k == 3); ENSURE (k < 4); out << k; try { spoc::detail::test_contract (k == 4, "k == 4", "here", 12); } catch (const std::runtime_error &e) { out << e.what (); } })
SNIP (extent, "spoc/extent.h spoc/point.h", { std::vector<spoc::point::point<double>> v { { 1, 5, 3 }, { 4, 2, 8 } }, w { { -1, 3, 3 } }; const auto e = spoc::extent::get_extent (v), f = spoc::extent::get_extent (w); out << spoc::extent::get_volume (e) << ' ' << spoc::extent::get_area (e) << ' ' << spoc::extent::get_total_extent (e, f).minp << (e == f) << spoc::extent::all_less_equal (e.minp, e.maxp); })
SNIP (extent_code, "spoc/extent.h spoc/point.h", { std::vector<spoc::point::point<double>> v { { 1, 5, 3 }, { 4, 2, 8 }, { 2, 3, 4 } }; const auto e = spoc::extent::get_extent (v); out << (spoc::extent::decode_extent (spoc::extent::encode_extent (e)) == e); for (const auto &p : spoc::extent::restore (spoc::extent::rescale (v, e), e)) out << p; })
SNIP (file, "spoc/file.h spoc/point_record.h", { spoc::file::spoc_file f ("wkt", true); spoc::point_record::point_record r (1, 2, 3); r.c = 7; f.push_back (r); f.resize_extra_fields (2); out << f.get_header () << f.get_point_record (0) << f.get_compressed (); })
SNIP (header, "spoc/header.h", { spoc::header::header h ("some wkt", 3, 12, false); std::stringstream s; spoc::header::write_header (s, h); const auto g = spoc::header::read_header (s); out << g << (g == h) << (g != h); })
SNIP (io, "spoc/io.h spoc/file.h spoc/point_record.h", { for (int z = 0; z < 2; ++z) { spoc::file::spoc_file f ("wkt", z); for (int k = 0; k < 50; ++k) { spoc::point_record::point_record r (k, k * k, 1 - k); r.i = uint16_t (k * 77); f.push_back (r); } std::stringstream s; spoc::io::write_spoc_file (s, f); out << s.str ().size () << ' '; const auto g = spoc::io::read_spoc_file (s); out << (g.get_point_records () == f.get_point_records ()) << g.get_header () << ' '; } })
SNIP (json, "spoc/json.h", { using namespace spoc::json; spoc::json::object o; o["a"] = 1; spoc::json::array a; a.push_back (2.5); a.push_back (std::string ("s")); o["b"] = a; out << o; spoc::json::pretty_print (out, o, 0); })
SNIP (point, "spoc/point.h", { spoc::point::point<double> p { 1, 2, 3 }, q { 1, 2, 4 }; out << (p < q) << (p == q) << (p != q) << p + q << p - q << spoc::point::distance (p, q) << spoc::point::about_equal (p, q, 2) << spoc::point::point_hash<double> {} (p); })
SNIP (point_code, "spoc/point.h", { std::vector<spoc::point::point<double>> v { { 1, 2, 3 }, { -1, 0.5, 1e9 } }; for (const auto &p : spoc::point::decode_points<double> (spoc::point::encode_points (v))) out << p << spoc::point::encode_point (p).size (); })
SNIP (record, "spoc/point_record.h", { spoc::point_record::point_record r (1, 2, 3, 4, 5, 6, 7, 8, 9); r.extra = { 10, 11 }; std::stringstream s; spoc::point_record::write_point_record (s, r); const auto q = spoc::point_record::read_point_record (s, 2); out << q << (q == r); })
SNIP (columns, "spoc/point_record.h", { spoc::point_record::point_records v { { 1, 2, 3 }, { 4, 5, 6 } }; using namespace spoc::point_record; out << get_x (v)[1] << get_y (v)[0] << get_z (v)[1] << get_c (v).size () << get_p (v)[0] << get_i (v)[0] << get_r (v)[0] << get_g (v)[1] << get_b (v)[1] << get_extra_fields_size (v) << has_all_zero_rgb (v) << has_all_zero_c (v); })
SNIP (radius, "spoc/radius_search.h spoc/point.h", { std::vector<spoc::point::point<double>> v; for (int k = 0; k < 20; ++k) v.push_back ({ double (k % 5), double (k / 5), 0 }); for (const auto &n : spoc::radius_search::radius_search_get_neighbors (v, 1.1)) out << n.size () << ' '; })
SNIP (subsample, "spoc/subsampling.h spoc/point.h", { std::vector<spoc::point::point<double>> v; for (int k = 0; k < 30; ++k) v.push_back ({ double (k % 7) * 0.4, double (k % 3), 0 }); for (auto k : spoc::subsampling::get_subsample_indexes (v, 1.0, 3)) out << k << ' '; out << spoc::subsampling::get_unique_xyz_indexes (v, 0).size () << spoc::subsampling::subsample_points (v, 2.0, 0).size (); })
SNIP (verification, "spoc/test_utils.h", { try { spoc::detail::test_verification (false, "e", "here", 3); } catch (const std::runtime_error &e) { out << e.what (); } spoc::detail::test_verification (true, "e", "here", 3); out << spoc::test_utils::about_equal (1.0, 1.0001, 2); })
SNIP (generators, "spoc/test_utils.h spoc/file.h", { const auto v = spoc::test_utils::generate_random_point_records (5, 2); out << spoc::test_utils::generate_points (5).size () << v.size () << v[3].extra.size () << spoc::test_utils::generate_tmp_filename (9).empty (); })
SNIP (utils, "spoc/utils.h spoc/point.h spoc/extent.h", { std::vector<spoc::point::point<double>> v { { 1.234, 5.678, 3 }, { 4, 2, 8 } }; spoc::utils::quantize (v, 0.1); for (const auto &p : v) out << p; spoc::extent::extent e { { 0, 0, 0 }, { 2, 9, 9 } }; out << spoc::utils::crop (v, e).size (); size_t h = 0; spoc::utils::hash_combine (h, 1, 2.5, 3); out << h; })
SNIP (version, "spoc/version.h", { out << int (spoc::MAJOR_VERSION) << int (spoc::MINOR_VERSION); })
SNIP (voxel, "spoc/voxel.h spoc/point.h", { std::vector<spoc::point::point<double>> v { { 0, 0, 0 }, { 4, 2, 8 }, { 4.2, 2, 8.3 } }; const auto x = spoc::voxel::get_voxel_indexes (v, 1.5); for (const auto &i : x) out << i.i << ',' << i.j << ',' << i.k << ' ' << spoc::voxel::voxel_index_hash {} (i) << ' '; out << spoc::voxel::get_voxel_index_set (x).size () << spoc::voxel::get_voxel_index_map (x).size (); })
SNIP (all, "spoc/spoc.h", { spoc::file::spoc_file f ("w", false); std::stringstream s; spoc::io::write_spoc_file (s, f); out << s.str ().size (); })
