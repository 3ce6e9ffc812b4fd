"""Start-up and shut-down of the process."""
import jobs, dbjobs
from jobs import job
def boot(*p):
    def run(P):
        import bootsuite
        return dbjobs.pack(bootsuite.run(P, p))
    return run
job('boot.listeners', boot('listeners'), ('C21', 'C27'), 200, 3)
job('boot.binds', boot('binds'), ('C27',), 300, 6)
job('boot.usage', boot('usage'), ('C24',), 300, 5)
job('boot.process', boot('process'), ('C01', 'C06', 'C20', 'C22', 'C23', 'C24', 'C27', 'C28'), 200, 2)
