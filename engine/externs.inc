// Uninstrumented library functions the encoded code may call. None of them
// reads program data that can be symbolic (arguments are made concrete first).
"_Znwm", "_Znam", "_ZdlPv", "_ZdlPvm", "_ZdaPv", "_ZdaPvm",
"_ZnwmSt11align_val_t", "_ZdlPvmSt11align_val_t", "_ZdlPvSt11align_val_t",
"_ZnwmRKSt9nothrow_t", "_ZdlPvRKSt9nothrow_t",
"symx_*", "__cxa_*", "__clang_call_terminate", "__gxx_personality_v0",
"_Unwind_Resume", "abort", "__assert_fail", "_ZSt9terminatev",
"_ZSt20__throw_length_errorPKc", "_ZSt19__throw_logic_errorPKc",
"_ZSt20__throw_out_of_rangePKc", "_ZSt24__throw_out_of_range_fmtPKcz",
"_ZSt17__throw_bad_allocv", "_ZSt28__throw_bad_array_new_lengthv",
"_ZSt25__throw_bad_function_callv", "_ZSt*__throw_*",
"_ZSt24__throw_invalid_argumentPKc", "_ZNSt9exceptionD*",
"_ZSt21__glibcxx_assert_failPKciS0_S0_",
"_ZSt29_Rb_tree_insert_and_rebalance*", "_ZSt18_Rb_tree_increment*",
"_ZSt18_Rb_tree_decrement*", "_ZSt28_Rb_tree_rebalance_for_erase*",
"_ZNKSt8__detail20_Prime_rehash_policy*",
"_ZNSt8__detail15_List_node_base*",
"_ZNSt15__exception_ptr*",
"_ZNSt12system_error*", "_ZNSt13runtime_error*", "_ZNKSt13runtime_error*",
"unnamed in libstdc++",
"__errno_location",
// locks: one thread runs, the calls only touch concrete lock state
"pthread_mutex_lock", "pthread_mutex_unlock", "pthread_mutex_trylock",
"pthread_rwlock_*",
"time", "_ZNSt3_V216generic_categoryEv", "_ZNSt3_V215system_categoryEv", "modf",
// string streams (shims_ios.cpp): locale objects, concrete
"_ZNSt8ios_baseC2Ev", "_ZNSt8ios_baseD2Ev", "_ZNSt6locale*", "_ZNKSt6locale*",
"_ZSt9use_facet*", "_ZSt9has_facet*", "_ZNSt8ios_base*", "_ZSt13__dynamic_castable*",
