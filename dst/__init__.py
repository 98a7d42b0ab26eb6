from dst import locks

locks.install()
