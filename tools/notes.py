NOTE["*"] = ("The specification is exhaustive within the constants of its models; the implementation is bound to it on every "
             "replayed behaviour and recorded history, judged by TLC, and not on inputs never driven.")
