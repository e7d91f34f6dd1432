def run(repo, work, r):
    pass
