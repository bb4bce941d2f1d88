/* stands in for the generated config.h; the feature macros are given on the command line */
