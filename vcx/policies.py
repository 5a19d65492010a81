"""What irtool looks into.  The first matching line wins."""

# sequential value flow: everything but the library's containers and streams
S = [
    r"inline ^std::(_Sp_|__shared_|shared_ptr<|default_delete<)",
    r"inline ^std::__cxx11::basic_string<char, std::char_traits<char>, std::allocator<char>>( const)?[*&]+ (const& )?(std|__gnu_cxx)::",
    r"opaque ^std::__cxx11::basic_string<",
    r"opaque ^std::allocator<char>::",
    r"opaque ^std::char_traits<",
    r"opaque ^std::(__cxx11::)?to_string\(",
    r"opaque ^bool std::operator[=!<>]+<char, ",
    r"opaque ^std::__cxx11::basic_string<char, .* std::operator\+",
]

# effects: code of the repository and of the driver, and the listed library wrappers
A = [
    r"opaque (^| )std::(next|prev)<",
    r"opaque ^std::pair<.*> std::(unordered_map|unordered_set|map|set|_Hashtable|_Rb_tree)<.*>::(emplace|insert|try_emplace|insert_or_assign|_M_emplace|_M_insert|equal_range)",
    r"inline ^std::atomic<",
    r"inline ^std::__atomic_base<",
    r"inline ^std::__atomic_float<",
    r"inline ^std::atomic_flag",
    r"inline ^std::atomic_",
    r"inline std::operator[&|^]+\(std::memory_order",
    r"inline ^std::chrono::",
    r"inline std::chrono::(operator|duration_cast|time_point_cast|__duration_cast|abs|floor|ceil)",
    r"inline ^std::ratio",
    r"inline ^std::(lock_guard|unique_lock|scoped_lock|shared_lock)<",
    r"inline ^std::__uniq_ptr",
    r"inline ^std::unique_ptr<",
    r"inline ^std::default_delete<",
    r"inline ^std::(tuple|_Tuple_impl|_Head_base|__tuple)",
    r"inline std::(get|__get_helper|forward_as_tuple|tie)<",
    r"inline ^std::reference_wrapper<",
    r"inline std::(forward|move|move_if_noexcept|addressof|__addressof|ref|cref|min|max|swap|as_const|begin|end|exchange)<",
    r"inline std::__(addressof|get_|niter|iterator_category|miter)",
    r"inline ^std::pair<",
    r"inline ^std::array<",
    r"inline ^std::__array_traits<",
    r"inline ^std::iterator<",
    r"inline ^std::initializer_list<",
    r"inline ^std::_Head_base",
    r"inline ^__gnu_cxx::__normal_iterator<",
    r"inline __gnu_cxx::operator",
    r"inline ^std::(numeric_limits|integral_constant|hash<)",
    r"inline ^std::__(atomic|lock)",
    r"inline std::__atomic_impl::",
    r"inline ^std::(memory_order )?__cmpexch_failure_order",
    r"inline std::__cmpexch_failure_order",
    r"inline ^(bool |constexpr )*std::(isnan|isinf)\(",
    r"inline ^([a-z]+ )*std::(floor|ceil|trunc|round|fabs|abs|fmin|fmax)\(",
    r"inline ^std::__detail::_Node_(const_)?iterator(_base)?<",
    r"inline std::__detail::operator[=!]+[ <]*",
    r"inline std::operator[=!]+[ <]+std::_Rb_tree_",
    r"inline ^std::_Rb_tree_(const_)?iterator<",
    r"inline std::operator[=!]= ?<.*\((std::(shared|unique)_ptr<.* const&, (std::nullptr_t|decltype\(nullptr\))|(std::nullptr_t|decltype\(nullptr\)), std::)",
    r"inline ^__gnu_cxx::__aligned_(buffer|membuf)<",
    r"inline ^std::__detail::_Hash_node(_base|_value|_value_base)?(<|::)",
]

# effects, with the operations of metric values as calls
AV = [
    r"opaque ^cxxmetrics::metric_value::",
    r"opaque cxxmetrics::operator[-+*/=!<>]+\(cxxmetrics::metric_value",
] + A

# the registry: snapshots are taken by calls
R = [
    r"inline ^cxxmetrics::timer_snapshot::rate\(",
    r"opaque ^cxxmetrics::[a-z_]+_snapshot::",
    r"opaque ^cxxmetrics::.*::snapshot\(\)( const)?$",
] + AV
