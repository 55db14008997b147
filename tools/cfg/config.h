/* #undef HAVE_AGMG */
/* #undef HAVE_DUNE_ISTL */
#define HAVE_DYNAMIC_BOOST_TEST 1
/* #undef HAVE_ERT */
#define HAVE_SUITESPARSE_UMFPACK_H 1
#define HAVE_NULLPTR 1
#define HAVE_STATIC_ASSERT 1
