/* fallback: nothing in the library needs it */
