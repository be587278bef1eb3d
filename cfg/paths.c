const char rrr_paths_data_dir[] = "/usr/local/var/lib/rrr";
