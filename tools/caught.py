"""Planted bugs that are caught by other checks than (only) that of their property, or not."""
BY = {
    "c05-stale-merge": "C05, C08",
    "c21-lock-order": "C21, C05 (all threads blocked)",
    "c21-racy-counter": "C21 (ThreadSanitizer)",
    "c20-lost-wakeup": "C20 (all threads blocked)",
}
