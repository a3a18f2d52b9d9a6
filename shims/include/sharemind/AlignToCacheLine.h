#ifndef SHAREMIND_ALIGNTOCACHELINE_H
#define SHAREMIND_ALIGNTOCACHELINE_H
/* Stand-in for the SharemindCHeaders header of this name. */
#define SHAREMIND_ALIGN_TO_CACHE_SIZE alignas(64)
#endif
