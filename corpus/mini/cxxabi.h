#pragma once
#include "typeinfo"
namespace __cxxabiv1 {
class __class_type_info : public std::type_info { public: ~__class_type_info(); };
class __si_class_type_info : public __class_type_info { public: ~__si_class_type_info(); const __class_type_info *__base_type; };
struct __base_class_type_info { const __class_type_info *__base_type; long __offset_flags; };
class __vmi_class_type_info : public __class_type_info { public: ~__vmi_class_type_info(); unsigned __flags; unsigned __base_count; __base_class_type_info __base_info[1]; };
}
namespace abi = __cxxabiv1;
