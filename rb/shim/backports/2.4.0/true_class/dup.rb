# Ruby has this since 2.4
