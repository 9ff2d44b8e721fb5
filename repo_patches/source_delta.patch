From e20a148059dff5dae42705c9d9ebf9791b8bfb98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:27:27 +0000
Subject: [PATCH 01/51] fix: a path is valid only if its final state is valid

IsPathValid stopped sampling before the end of the path, so that a path
ending inside an obstacle or outside the map could be accepted.
---
 .../src/state_validator/state_validator_occupancy_map.cpp  | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/planner/src/state_validator/state_validator_occupancy_map.cpp b/planner/src/state_validator/state_validator_occupancy_map.cpp
index 69d0096..bd112ba 100644
--- a/planner/src/state_validator/state_validator_occupancy_map.cpp
+++ b/planner/src/state_validator/state_validator_occupancy_map.cpp
@@ -65,6 +65,13 @@ namespace Planner {
 			length += std::max(deltaLength, minPathInterpolationDistance);
 		}
 
+		// The last step may have gone past the end of the path
+		if (!IsStateValid(path.GetFinalState())) {
+			if (last)
+				*last = lastValidLength / pathLength;
+			return false;
+		}
+
 		if (last)
 			*last = 1.0f;
 		return true;
-- 
2.43.0


From 2c8dcae35caa396e1c3076cbba0b62a74c939f0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:24:56 +0000
Subject: [PATCH 02/51] fix: positions just outside the map are not rounded
 into its first row or column

The conversion from a position to a cell truncated toward zero, so that a
position up to one cell outside the lower borders was mapped to a cell of
the map, and outlines crossing these borders were rasterized askew.
---
 planner/src/state_validator/occupancy_map.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/planner/src/state_validator/occupancy_map.h b/planner/src/state_validator/occupancy_map.h
index 336fa6b..21c6e56 100644
--- a/planner/src/state_validator/occupancy_map.h
+++ b/planner/src/state_validator/occupancy_map.h
@@ -105,8 +105,8 @@ namespace Planner {
 
 		inline GridCellPosition GridPositionToGridCell(double x, double y, bool bounded) const
 		{
-			int row = static_cast<int>(x / resolution);
-			int col = static_cast<int>(y / resolution);
+			int row = static_cast<int>(std::floor(x / resolution));
+			int col = static_cast<int>(std::floor(y / resolution));
 
 			if (!bounded)
 				return GridCellPosition(row, col);
-- 
2.43.0


From 66d9b7af216b53c6599b53887fc953dfee5e1101 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:24:56 +0000
Subject: [PATCH 03/51] fix: placing an occupancy map after it was sized moves
 its grid

SetPosition only updated the local frame: the grid kept its former world
position, so that the world-to-grid and world-to-local conversions disagreed.
---
 planner/src/state_validator/occupancy_map.h | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/planner/src/state_validator/occupancy_map.h b/planner/src/state_validator/occupancy_map.h
index 21c6e56..212d33a 100644
--- a/planner/src/state_validator/occupancy_map.h
+++ b/planner/src/state_validator/occupancy_map.h
@@ -37,7 +37,11 @@ namespace Planner {
 		virtual void Update();
 
 		/// @brief Set the position of the bottom left corner of the map.
-		void SetPosition(const Point2d& position) { m_localOrigin = position; }
+		void SetPosition(const Point2d& position)
+		{
+			m_localOrigin = position;
+			m_worldGridOrigin = m_localOrigin + m_localGridOrigin;
+		}
 		/// @brief Return the position of the bottom left corner of the map in
 		/// the world coordinates.
 		const Point2d& GetPosition() const { return m_localOrigin; }
@@ -125,7 +129,7 @@ namespace Planner {
 		// Position of the origin of the local frame in the world frame
 		Point2d m_localOrigin = { 0.0, 0.0 };
 		// Position of the origin of the grid frame in the local frame
-		Point2d m_localGridOrigin, m_worldGridOrigin;
+		Point2d m_localGridOrigin = { 0.0, 0.0 }, m_worldGridOrigin = { 0.0, 0.0 };
 		// Matrix of cell occupancy (positive or zero value means occupied)
 		Ref<Grid<int>> m_occupancyMatrix;
 		// Distance map to nearest obstacle
-- 
2.43.0


From bd69642dcba18d8ba2071c296638036cced9689e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:26:28 +0000
Subject: [PATCH 04/51] fix: removing an obstacle keeps the cells it shares
 with other obstacles

Removal cleared the cells of the obstacle's current pose, including those
occupied by other obstacles, and left ghost cells behind if the obstacle had
been moved. An obstacle whose shape failed stayed half registered. Remember
the cells occupied when the obstacle is added and undo a failed addition.
---
 .../obstacle_list_occupancy_map.cpp           | 44 +++++++++++++++----
 .../obstacle_list_occupancy_map.h             |  8 +++-
 2 files changed, 43 insertions(+), 9 deletions(-)

diff --git a/planner/src/state_validator/obstacle_list_occupancy_map.cpp b/planner/src/state_validator/obstacle_list_occupancy_map.cpp
index 35b6b49..269db05 100644
--- a/planner/src/state_validator/obstacle_list_occupancy_map.cpp
+++ b/planner/src/state_validator/obstacle_list_occupancy_map.cpp
@@ -31,16 +31,24 @@ namespace Planner {
 		if (!m_occupancyMatrix)
 			throw std::runtime_error("The size of the occupancy matrix has not been initialized");
 
+		if (m_obstacles.find(obstacle) != m_obstacles.end())
+			return false;
+
+		// Compute the footprint first: nothing is modified if it throws
+		auto cells = obstacle->GetBoundaryGridCellPosition(*this);
 		auto id = FindSmallestIDAvailable(m_obstacleIDs);
-		if (m_obstacles.insert({ obstacle, id }).second) {
+		auto it = m_obstacles.insert({ obstacle, { id, std::move(cells) } }).first;
+		try {
 			m_obstacleIDs.insert(id);
-			for (auto& cell : obstacle->GetBoundaryGridCellPosition(*this)) {
+			for (auto& cell : it->second.cells) {
 				(*m_occupancyMatrix)[cell.row][cell.col] = id;
 				m_obstacleDistanceMap->SetObstacle(cell);
 			}
-			return true;
+		} catch (...) {
+			RemoveObstacle(obstacle);
+			throw;
 		}
-		return false;
+		return true;
 	}
 
 	bool ObstacleListOccupancyMap::RemoveObstacle(const Ref<Obstacle>& obstacle)
@@ -51,11 +59,31 @@ namespace Planner {
 		auto it = m_obstacles.find(obstacle);
 		if (it == m_obstacles.end())
 			return false;
-		m_obstacleIDs.erase(it->second);
+		// Use the footprint registered when the obstacle was added: the obstacle
+		// may have been moved since then.
+		const auto id = it->second.id;
+		const auto cells = std::move(it->second.cells);
+		m_obstacleIDs.erase(id);
 		m_obstacles.erase(it);
-		for (auto& cell : obstacle->GetBoundaryGridCellPosition(*this)) {
-			(*m_occupancyMatrix)[cell.row][cell.col] = -1;
-			m_obstacleDistanceMap->UnsetObstacle(cell);
+		std::vector<GridCellPosition> released;
+		for (auto& cell : cells) {
+			auto& value = (*m_occupancyMatrix)[cell.row][cell.col];
+			if (value == (int)id) {
+				value = -1;
+				released.push_back(cell);
+			}
+		}
+		// Cells shared with other obstacles remain occupied by them
+		for (auto& [other, entry] : m_obstacles) {
+			for (auto& cell : entry.cells) {
+				auto& value = (*m_occupancyMatrix)[cell.row][cell.col];
+				if (value < 0)
+					value = entry.id;
+			}
+		}
+		for (auto& cell : released) {
+			if ((*m_occupancyMatrix)[cell.row][cell.col] < 0)
+				m_obstacleDistanceMap->UnsetObstacle(cell);
 		}
 		return true;
 	}
diff --git a/planner/src/state_validator/obstacle_list_occupancy_map.h b/planner/src/state_validator/obstacle_list_occupancy_map.h
index 22a4552..5681bc2 100644
--- a/planner/src/state_validator/obstacle_list_occupancy_map.h
+++ b/planner/src/state_validator/obstacle_list_occupancy_map.h
@@ -23,7 +23,13 @@ namespace Planner {
 		virtual bool IsOccupied(const GridCellPosition& cell) override;
 
 	private:
-		std::unordered_map<Ref<Obstacle>, unsigned int> m_obstacles;
+		/// @brief Identifier of an obstacle and cells it occupied when added.
+		struct Entry {
+			unsigned int id;
+			std::vector<GridCellPosition> cells;
+		};
+
+		std::unordered_map<Ref<Obstacle>, Entry> m_obstacles;
 		std::set<unsigned int> m_obstacleIDs;
 	};
 }
-- 
2.43.0


From 98aba8b1c7843e0602d6ccc2d06b6c72ef440e4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:28:25 +0000
Subject: [PATCH 05/51] fix: the Voronoi cost of a path skips positions outside
 the map

A path accepted by the validator may leave the map by less than the
validation step between two checked states. Sampling it there aborted the
program, or read outside the cost map without assertions.
---
 planner/src/algo/hybrid_a_star.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/planner/src/algo/hybrid_a_star.cpp b/planner/src/algo/hybrid_a_star.cpp
index fb4b68c..ba12908 100644
--- a/planner/src/algo/hybrid_a_star.cpp
+++ b/planner/src/algo/hybrid_a_star.cpp
@@ -100,7 +100,9 @@ namespace Planner {
 		for (double length = 0.0; length < pathLength; length += interpLength) {
 			auto position = path.Interpolate(length / pathLength).position;
 			auto cell = m_occupancyMap->WorldPositionToGridCell(position, false);
-			PP_ASSERT(m_occupancyMap->IsInsideMap(cell), "The cell is not inside the occupancy map");
+			// The path may leave the map between the states checked by the validator
+			if (!m_occupancyMap->IsInsideMap(cell))
+				continue;
 			voronoiCost = m_gvd->GetPathCost(cell);
 		}
 
-- 
2.43.0


From 64e20e6aad606a39c95834e5e21351c81b024b1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:28:25 +0000
Subject: [PATCH 06/51] fix: path validation measures the distance to the
 border in the frame of the map

The bounds are expressed in the local frame of the map. With a map placed
away from the origin, the validation step could jump over the border.
---
 .../state_validator/state_validator_occupancy_map.cpp    | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/planner/src/state_validator/state_validator_occupancy_map.cpp b/planner/src/state_validator/state_validator_occupancy_map.cpp
index bd112ba..edd36f8 100644
--- a/planner/src/state_validator/state_validator_occupancy_map.cpp
+++ b/planner/src/state_validator/state_validator_occupancy_map.cpp
@@ -51,11 +51,12 @@ namespace Planner {
 			lastValidLength = length;
 
 			// Update length
+			Point2d localPosition = m_map->WorldPositionToLocalPosition(state.position);
 			float distToMapBorder = std::min({
-				state.x() - bounds[0].x(),
-				bounds[1].x() - state.x(),
-				state.y() - bounds[0].y(),
-				bounds[1].y() - state.y(),
+				localPosition.x() - bounds[0].x(),
+				bounds[1].x() - localPosition.x(),
+				localPosition.y() - bounds[0].y(),
+				bounds[1].y() - localPosition.y(),
 			});
 			// TODO add offset
 			GridCellPosition cell = m_map->WorldPositionToGridCell(state.position);
-- 
2.43.0


From 098079f153a392ae4ca30621dbf70a2602bd5d0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:34:31 +0000
Subject: [PATCH 07/51] fix: bidirectional A* returns connected, optimal paths
 and no stale ones

---
 planner/src/algo/a_star.h               |  2 ++
 planner/src/algo/bidirectional_a_star.h | 33 ++++++++++++++++---------
 2 files changed, 23 insertions(+), 12 deletions(-)

diff --git a/planner/src/algo/a_star.h b/planner/src/algo/a_star.h
index 9cbd016..7ff00bd 100644
--- a/planner/src/algo/a_star.h
+++ b/planner/src/algo/a_star.h
@@ -33,6 +33,8 @@ namespace Planner {
 		friend class AStarCombinedHeuristic;
 		template <typename S1, typename S2, typename Func>
 		friend class AStarHeuristicAdapter;
+		template <typename S>
+		friend class AverageHeuristic;
 		template <typename S, typename A, typename HashState, typename EqualState, bool GraphSearch, typename ExploredContainer>
 		friend class AStar;
 
diff --git a/planner/src/algo/bidirectional_a_star.h b/planner/src/algo/bidirectional_a_star.h
index 8de8e8e..b4b567d 100644
--- a/planner/src/algo/bidirectional_a_star.h
+++ b/planner/src/algo/bidirectional_a_star.h
@@ -29,6 +29,8 @@ namespace Planner {
 		{
 			m_init = init;
 			this->m_goal = goal;
+			m_toGoalHeuristic->SetGoal(goal);
+			m_toInitHeuristic->SetGoal(init);
 			m_constant = m_toInitHeuristic->GetHeuristicValue(goal) / 2.0;
 		}
 
@@ -67,7 +69,10 @@ namespace Planner {
 		{
 			auto fPath = m_fSearch.GetPath();
 			auto rPath = m_rSearch.GetPath();
-			fPath.insert(fPath.end(), rPath.rbegin(), rPath.rend());
+			if (fPath.empty() || rPath.empty())
+				return std::vector<State>();
+			// The state where the searches meet belongs to both paths
+			fPath.insert(fPath.end(), std::next(rPath.rbegin()), rPath.rend());
 			return fPath;
 		}
 
@@ -134,11 +139,6 @@ namespace Planner {
 				return Status::Failure;
 			}
 
-			if (m_fAverageHeuristic && m_rAverageHeuristic) {
-				m_fAverageHeuristic->Update(this->m_init, this->m_goal);
-				m_rAverageHeuristic->Update(this->m_goal, this->m_init);
-			}
-
 			m_fSearch.SetInitState(this->m_init);
 			m_rSearch.SetInitState(this->m_goal);
 			m_fSearch.SetGoalState(this->m_goal);
@@ -147,6 +147,11 @@ namespace Planner {
 			m_fSearch.InitializeSearch();
 			m_rSearch.InitializeSearch();
 
+			if (m_fAverageHeuristic && m_rAverageHeuristic) {
+				m_fAverageHeuristic->Update(this->m_init, this->m_goal);
+				m_rAverageHeuristic->Update(this->m_goal, this->m_init);
+			}
+
 			const double costOffset = m_fSearch.m_heuristic->GetHeuristicValue(this->m_goal) + m_rSearch.m_heuristic->GetHeuristicValue(this->m_goal);
 
 			double bestCost = std::numeric_limits<double>::infinity();
@@ -166,8 +171,8 @@ namespace Planner {
 					if (m_fSearch.m_frontier.Empty() || m_rSearch.m_frontier.Empty())
 						return Status::Success;
 
-					double fTopCost = (*m_fSearch.m_frontier.Top())->pathCost;
-					double rTopCost = (*m_rSearch.m_frontier.Top())->pathCost;
+					double fTopCost = (*m_fSearch.m_frontier.Top())->totalCost;
+					double rTopCost = (*m_rSearch.m_frontier.Top())->totalCost;
 
 					// Check the stopping criterion
 					if (fTopCost + rTopCost >= bestCost + costOffset)
@@ -180,10 +185,14 @@ namespace Planner {
 	protected:
 		void FindIntersection(AStarNode<State, Action>* nodeA, UnidirectionalAStar& searchA, UnidirectionalAStar& searchB, double& bestPathCost)
 		{
-			auto it = searchB.m_explored.find((*nodeA)->state);
-			if (it != searchB.m_explored.end()) {
-				auto nodeB = it->second;
-
+			// The state may be known to the other search without being explored yet
+			AStarNode<State, Action>* nodeB = nullptr;
+			if (auto it = searchB.m_explored.find((*nodeA)->state); it != searchB.m_explored.end())
+				nodeB = it->second;
+			else if (auto inFrontier = searchB.m_frontier.Find(nodeA))
+				nodeB = *inFrontier;
+
+			if (nodeB) {
 				// Check the path of the new candidate path
 				double candidatePathCost = (*nodeA)->pathCost + (*nodeB)->pathCost;
 				if (candidatePathCost < bestPathCost) {
-- 
2.43.0


From cb967e7eb146b1eade9552721735f9f29f211c3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:52:45 +0000
Subject: [PATCH 08/51] fix: a Voronoi diagram attached to a processed map
 finds its edges

---
 planner/src/state_validator/gvd.cpp | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/planner/src/state_validator/gvd.cpp b/planner/src/state_validator/gvd.cpp
index 31226ba..a84e07a 100644
--- a/planner/src/state_validator/gvd.cpp
+++ b/planner/src/state_validator/gvd.cpp
@@ -94,6 +94,15 @@ namespace Planner {
 			return m_voronoiMap;
 
 		m_voronoiMap = makeRef<MakeRefEnabler<VoronoiDistanceMap>>(rows, columns, resolution);
+		// Visit the cells already processed again to find the edges between them
+		for (int row = 0; row < rows; row++) {
+			for (int col = 0; col < columns; col++) {
+				if (m_obstacle[row][col].IsValid()) {
+					m_open.push({ { row, col }, m_distance[row][col] });
+					m_toProcess[row][col] = true;
+				}
+			}
+		}
 		return m_voronoiMap;
 	}
 
-- 
2.43.0


From 930500dbc0c2f9091da5ed1439bd5801cefdfbb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:52:45 +0000
Subject: [PATCH 09/51] fix: obstacles sharing cells leave no stale Voronoi
 edges when one is removed

---
 .../obstacle_list_occupancy_map.cpp           | 54 ++++++++++++-------
 .../obstacle_list_occupancy_map.h             |  3 ++
 2 files changed, 37 insertions(+), 20 deletions(-)

diff --git a/planner/src/state_validator/obstacle_list_occupancy_map.cpp b/planner/src/state_validator/obstacle_list_occupancy_map.cpp
index 269db05..5668b75 100644
--- a/planner/src/state_validator/obstacle_list_occupancy_map.cpp
+++ b/planner/src/state_validator/obstacle_list_occupancy_map.cpp
@@ -40,10 +40,7 @@ namespace Planner {
 		auto it = m_obstacles.insert({ obstacle, { id, std::move(cells) } }).first;
 		try {
 			m_obstacleIDs.insert(id);
-			for (auto& cell : it->second.cells) {
-				(*m_occupancyMatrix)[cell.row][cell.col] = id;
-				m_obstacleDistanceMap->SetObstacle(cell);
-			}
+			Occupy(it->second);
 		} catch (...) {
 			RemoveObstacle(obstacle);
 			throw;
@@ -51,6 +48,18 @@ namespace Planner {
 		return true;
 	}
 
+	void ObstacleListOccupancyMap::Occupy(const Entry& entry)
+	{
+		for (auto& cell : entry.cells) {
+			// A shared cell keeps its owner until that obstacle is removed
+			auto& value = (*m_occupancyMatrix)[cell.row][cell.col];
+			if (value < 0) {
+				value = entry.id;
+				m_obstacleDistanceMap->SetObstacle(cell);
+			}
+		}
+	}
+
 	bool ObstacleListOccupancyMap::RemoveObstacle(const Ref<Obstacle>& obstacle)
 	{
 		if (!m_occupancyMatrix)
@@ -65,25 +74,30 @@ namespace Planner {
 		const auto cells = std::move(it->second.cells);
 		m_obstacleIDs.erase(id);
 		m_obstacles.erase(it);
-		std::vector<GridCellPosition> released;
-		for (auto& cell : cells) {
-			auto& value = (*m_occupancyMatrix)[cell.row][cell.col];
-			if (value == (int)id) {
-				value = -1;
-				released.push_back(cell);
-			}
-		}
-		// Cells shared with other obstacles remain occupied by them
-		for (auto& [other, entry] : m_obstacles) {
-			for (auto& cell : entry.cells) {
+		auto release = [this](const std::vector<GridCellPosition>& cells, unsigned int id) {
+			for (auto& cell : cells) {
 				auto& value = (*m_occupancyMatrix)[cell.row][cell.col];
-				if (value < 0)
-					value = entry.id;
+				if (value == (int)id) {
+					value = -1;
+					m_obstacleDistanceMap->UnsetObstacle(cell);
+				}
 			}
+		};
+		release(cells, id);
+		// Obstacles sharing cells with the removed one take them over. They are
+		// set again entirely so that the distance map forgets the former owner.
+		std::vector<const Entry*> sharing;
+		for (auto& [other, entry] : m_obstacles) {
+			if (std::any_of(entry.cells.begin(), entry.cells.end(), [this](const GridCellPosition& cell) { return (*m_occupancyMatrix)[cell.row][cell.col] < 0; }))
+				sharing.push_back(&entry);
 		}
-		for (auto& cell : released) {
-			if ((*m_occupancyMatrix)[cell.row][cell.col] < 0)
-				m_obstacleDistanceMap->UnsetObstacle(cell);
+		if (!sharing.empty()) {
+			for (auto entry : sharing)
+				release(entry->cells, entry->id);
+			m_obstacleDistanceMap->Update();
+			for (auto entry : sharing)
+				Occupy(*entry);
+			m_obstacleDistanceMap->Update();
 		}
 		return true;
 	}
diff --git a/planner/src/state_validator/obstacle_list_occupancy_map.h b/planner/src/state_validator/obstacle_list_occupancy_map.h
index 5681bc2..c1a5909 100644
--- a/planner/src/state_validator/obstacle_list_occupancy_map.h
+++ b/planner/src/state_validator/obstacle_list_occupancy_map.h
@@ -29,6 +29,9 @@ namespace Planner {
 			std::vector<GridCellPosition> cells;
 		};
 
+		/// @brief Mark the free cells of the footprint of an obstacle.
+		void Occupy(const Entry& entry);
+
 		std::unordered_map<Ref<Obstacle>, Entry> m_obstacles;
 		std::set<unsigned int> m_obstacleIDs;
 	};
-- 
2.43.0


From 38eee24daaf896f6110b5345bc7adc4b6a5ade59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:54:29 +0000
Subject: [PATCH 10/51] fix: obstacle heuristic keeps the cheapest cost of a
 frontier cell

---
 planner/src/algo/heuristics.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/planner/src/algo/heuristics.cpp b/planner/src/algo/heuristics.cpp
index 76cbf29..f5eef83 100644
--- a/planner/src/algo/heuristics.cpp
+++ b/planner/src/algo/heuristics.cpp
@@ -142,7 +142,7 @@ namespace Planner {
 				} else if (inFrontier) {
 					// Check if the node in frontier has a higher cost than the
 					// current path, and if so replace it by child
-					if (inFrontier->value > m_cost[n.row][n.col]) {
+					if (inFrontier->value > pathCost) {
 						frontier.Remove({ n, 0.0f });
 						frontier.Push({ n, pathCost });
 						m_cost[n.row][n.col] = pathCost;
-- 
2.43.0


From 3436529fa24d4f1678d8623ccdea378237970496 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:09:39 +0000
Subject: [PATCH 11/51] fix: RRT* connects new states through checked motions
 and keeps the cost of known states

---
 planner/src/algo/rrt_star.h | 17 ++++++++++++++---
 1 file changed, 14 insertions(+), 3 deletions(-)

diff --git a/planner/src/algo/rrt_star.h b/planner/src/algo/rrt_star.h
index 8b21024..333efd2 100644
--- a/planner/src/algo/rrt_star.h
+++ b/planner/src/algo/rrt_star.h
@@ -96,10 +96,21 @@ namespace Planner {
 					}
 				}
 
-				// Add the node to the tree
+				// Connect to the node the path was steered from if none of the
+				// neighbors can be used
+				if (!bestParentNode) {
+					bestParentNode = nearestNode;
+					bestCost = (*nearestNode)->info.costFromGoal + pathNearToNew->GetLength();
+					bestPath = pathNearToNew;
+				}
+
+				// Add the node to the tree (the state may already belong to it)
+				const auto treeSize = m_tree.Size();
 				auto newNode = m_tree.Extend(newState, bestParentNode);
-				(*newNode)->info.costFromGoal = bestCost;
-				(*newNode)->info.path = std::move(bestPath);
+				if (m_tree.Size() > treeSize) {
+					(*newNode)->info.costFromGoal = bestCost;
+					(*newNode)->info.path = std::move(bestPath);
+				}
 
 				// Check solution
 				if (IsSolution(newState)) {
-- 
2.43.0


From 0254c1bf72250f5fc0c88161b755671c8e0d17c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:14:59 +0000
Subject: [PATCH 12/51] fix: the non-holonomic heuristic reads its table within
 bounds for negative headings

---
 planner/src/algo/heuristics.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/planner/src/algo/heuristics.cpp b/planner/src/algo/heuristics.cpp
index f5eef83..90ec31f 100644
--- a/planner/src/algo/heuristics.cpp
+++ b/planner/src/algo/heuristics.cpp
@@ -2,6 +2,7 @@
 #include "state_validator/occupancy_map.h"
 #include "utils/make_ref_enabler.h"
 #include "geometry/reeds_shepp.h"
+#include "utils/maths.h"
 
 namespace Planner {
 	NonHolonomicHeuristic::NonHolonomicHeuristic(double spatialResolution, double angularResolution, double minTurningRadius,
@@ -81,8 +82,8 @@ namespace Planner {
 
 		int i = (int)round((delta.x() + offsetX) / spatialResolution);
 		int j = (int)round((delta.y() + offsetY) / spatialResolution);
-		int k = (int)round(delta.theta / angularResolution);
-		if (k == numAngular)
+		int k = (int)round(Maths::Modulo(delta.theta, 2 * M_PI) / angularResolution);
+		if (k >= numAngular)
 			k = 0;
 
 		if (i < 0 || i >= numSpatialX || j < 0 || j >= numSpatialY) {
-- 
2.43.0


From 37776a2911bf17ab098fd42f3112b9168dbd0a8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:15:35 +0000
Subject: [PATCH 13/51] fix: Hybrid A* never generates motions sharper than the
 minimum turning radius

---
 planner/src/algo/hybrid_a_star.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/planner/src/algo/hybrid_a_star.cpp b/planner/src/algo/hybrid_a_star.cpp
index ba12908..a979cce 100644
--- a/planner/src/algo/hybrid_a_star.cpp
+++ b/planner/src/algo/hybrid_a_star.cpp
@@ -22,7 +22,7 @@ namespace Planner {
 		const double deltaMax = m_model->GetSteeringAngleFromTurningRadius(m_param.minTurningRadius);
 		m_deltas.push_back(0.0);
 		for (unsigned int i = 0; i < m_param.numGeneratedMotion / 2; i++) {
-			double delta = (i + 1) / 2.0 * deltaMax;
+			double delta = (i + 1) * deltaMax / (m_param.numGeneratedMotion / 2);
 			m_deltas.push_back(delta);
 			m_deltas.push_back(-delta);
 		}
-- 
2.43.0


From 69e9214cdde93add559e33b87f394905fa954137 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:15:35 +0000
Subject: [PATCH 14/51] fix: the sampled Hybrid A* path keeps the goal and
 every cusp point

---
 planner/src/algo/hybrid_a_star.cpp | 20 +++++++++-----------
 1 file changed, 9 insertions(+), 11 deletions(-)

diff --git a/planner/src/algo/hybrid_a_star.cpp b/planner/src/algo/hybrid_a_star.cpp
index a979cce..6e4a3b4 100644
--- a/planner/src/algo/hybrid_a_star.cpp
+++ b/planner/src/algo/hybrid_a_star.cpp
@@ -274,18 +274,16 @@ namespace Planner {
 			cuspRatios.insert(0.0);
 			cuspRatios.insert(1.0);
 			ratios.reserve(pathLength / pathInterpolation + cuspRatios.size());
-			auto cuspRatioIt = cuspRatios.begin();
-			for (double length = 0.0; length <= pathLength; length += pathInterpolation) {
-				// Sample cusp point
-				double cuspLength = *cuspRatioIt * pathLength;
-				if (length >= cuspLength - pathInterpolation / 2 && length < cuspLength + pathInterpolation / 2) {
-					cuspIndices.insert(ratios.size());
-					ratios.push_back(*cuspRatioIt);
-					cuspRatioIt++;
-				} else {
-					// Sample at regular interval
+			double length = 0.0;
+			for (double cuspRatio : cuspRatios) {
+				// Sample at regular interval until the cusp point
+				const double cuspLength = cuspRatio * pathLength;
+				for (; length < cuspLength - pathInterpolation / 2; length += pathInterpolation)
 					ratios.push_back(length / pathLength);
-				}
+				// Sample cusp point
+				cuspIndices.insert(ratios.size());
+				ratios.push_back(cuspRatio);
+				length = cuspLength + pathInterpolation;
 			}
 
 			// Sample points
-- 
2.43.0


From d52b91135e375c86d525d556c8d3304fafa11f1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:15:35 +0000
Subject: [PATCH 15/51] fix: Hybrid A* returns a path when the search starts at
 the goal

---
 planner/src/algo/hybrid_a_star.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/planner/src/algo/hybrid_a_star.cpp b/planner/src/algo/hybrid_a_star.cpp
index 6e4a3b4..e43891f 100644
--- a/planner/src/algo/hybrid_a_star.cpp
+++ b/planner/src/algo/hybrid_a_star.cpp
@@ -286,8 +286,11 @@ namespace Planner {
 				length = cuspLength + pathInterpolation;
 			}
 
-			// Sample points
-			graphSearchPath = path->Interpolate(ratios);
+			// Sample points (there is nothing to drive if the search starts at the goal)
+			if (path->Size() == 0)
+				graphSearchPath = { this->m_init };
+			else
+				graphSearchPath = path->Interpolate(ratios);
 		}
 
 		// Smooth the path
-- 
2.43.0


From 4458ba4c6a30d3420582cc422916a25986fdf9d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:15:35 +0000
Subject: [PATCH 16/51] fix: cusp points of a composite path are relative to
 the whole path

---
 planner/src/paths/path_composite.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/planner/src/paths/path_composite.cpp b/planner/src/paths/path_composite.cpp
index 59d3545..a5877a5 100644
--- a/planner/src/paths/path_composite.cpp
+++ b/planner/src/paths/path_composite.cpp
@@ -17,7 +17,8 @@ namespace Planner {
 
 			// Check for cusp point in the path
 			auto cusps = path.second->GetCuspPointRatios();
-			ratios.insert(cusps.begin(), cusps.end());
+			for (double cusp : cusps)
+				ratios.insert((length + cusp * path.second->GetLength()) / this->m_length);
 
 			prevDirection = path.second->GetDirection(1.0);
 			length += path.second->GetLength();
-- 
2.43.0


From eded0077b2d335d9e464ed3aa9313f4126eb21a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:17:54 +0000
Subject: [PATCH 17/51] fix: Hybrid A* charges changes of direction between
 successive motions

---
 planner/src/algo/hybrid_a_star.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/planner/src/algo/hybrid_a_star.cpp b/planner/src/algo/hybrid_a_star.cpp
index e43891f..25c53cb 100644
--- a/planner/src/algo/hybrid_a_star.cpp
+++ b/planner/src/algo/hybrid_a_star.cpp
@@ -141,7 +141,7 @@ namespace Planner {
 		default:
 			pathCost = 0.0;
 		}
-		double switchingCost = action.path->GetDirection(1.0) == action.path->GetDirection(1.0) ? 0.0 : m_param.directionSwitchingCost;
+		double switchingCost = state.direction == Direction::NoMotion || state.direction == direction ? 0.0 : m_param.directionSwitchingCost;
 		double voronoiCost = GetVoronoiCost(*action.path);
 		cost = pathCost + switchingCost + voronoiCost;
 
@@ -164,12 +164,14 @@ namespace Planner {
 
 		double pathAndSwitchingCosts = path->ComputeCost(m_param.directionSwitchingCost,
 			m_param.reverseCostMultiplier, m_param.forwardCostMultiplier);
+		const auto direction = path->GetDirection(0.0);
+		double switchingCost = state.direction == Direction::NoMotion || state.direction == direction ? 0.0 : m_param.directionSwitchingCost;
 		child = CreateStateFromPath(path);
 		action.path = std::move(path);
 
 		// Compute transition cost
 		double voronoiCost = GetVoronoiCost(*action.path);
-		cost = pathAndSwitchingCosts + voronoiCost;
+		cost = pathAndSwitchingCosts + switchingCost + voronoiCost;
 
 		return true;
 	}
-- 
2.43.0


From c82f2a8f6b46817c7bcc9e3ed48a90c3d416228f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:17:54 +0000
Subject: [PATCH 18/51] fix: the cost of a Reeds-Shepp path takes the forward
 multiplier into account

---
 planner/src/geometry/reeds_shepp.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/planner/src/geometry/reeds_shepp.cpp b/planner/src/geometry/reeds_shepp.cpp
index 79d532a..ddf9491 100644
--- a/planner/src/geometry/reeds_shepp.cpp
+++ b/planner/src/geometry/reeds_shepp.cpp
@@ -468,7 +468,7 @@ namespace Planner {
 			if (!m_motions[0].IsValid())
 				return std::numeric_limits<float>::infinity();
 
-			if (reverseCostMultiplier == 1.0f && directionSwitchingCost == 0.0f)
+			if (reverseCostMultiplier == 1.0f && forwardCostMultiplier == 1.0f && directionSwitchingCost == 0.0f)
 				return m_length * minTurningRadius;
 
 			float cost = 0;
-- 
2.43.0


From 06febf8f80bf3cde1333a2e3e5f08f44cec4a5c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:17:54 +0000
Subject: [PATCH 19/51] fix: Hybrid A* recognises a goal heading of pi reached
 as -pi

---
 planner/src/algo/hybrid_a_star.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/planner/src/algo/hybrid_a_star.h b/planner/src/algo/hybrid_a_star.h
index 3aac712..0051479 100644
--- a/planner/src/algo/hybrid_a_star.h
+++ b/planner/src/algo/hybrid_a_star.h
@@ -207,7 +207,7 @@ namespace Planner {
 		private:
 			inline bool IdenticalPoses(const Pose2d& lhs, const Pose2d& rhs, double tol = 1e-3)
 			{
-				return (lhs.position - rhs.position).norm() < tol && abs(lhs.theta - rhs.theta) < tol * M_PI / 180.0;
+				return (lhs.position - rhs.position).norm() < tol && abs(Pose2d(0.0, 0.0, lhs.theta - rhs.theta).theta) < tol * M_PI / 180.0;
 			}
 		};
 
-- 
2.43.0


From fa2e0d19844c5c8952529743d1ad4f815f735c90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:20:01 +0000
Subject: [PATCH 20/51] fix: Hybrid A* does not lose the goal when its cell was
 reached by another state

---
 planner/src/algo/hybrid_a_star.cpp | 1 +
 planner/src/algo/hybrid_a_star.h   | 3 +++
 2 files changed, 4 insertions(+)

diff --git a/planner/src/algo/hybrid_a_star.cpp b/planner/src/algo/hybrid_a_star.cpp
index 25c53cb..109b2a5 100644
--- a/planner/src/algo/hybrid_a_star.cpp
+++ b/planner/src/algo/hybrid_a_star.cpp
@@ -167,6 +167,7 @@ namespace Planner {
 		const auto direction = path->GetDirection(0.0);
 		double switchingCost = state.direction == Direction::NoMotion || state.direction == direction ? 0.0 : m_param.directionSwitchingCost;
 		child = CreateStateFromPath(path);
+		child.discretePose = m_goalState.discretePose;
 		action.path = std::move(path);
 
 		// Compute transition cost
diff --git a/planner/src/algo/hybrid_a_star.h b/planner/src/algo/hybrid_a_star.h
index 0051479..e2067ad 100644
--- a/planner/src/algo/hybrid_a_star.h
+++ b/planner/src/algo/hybrid_a_star.h
@@ -123,6 +123,9 @@ namespace Planner {
 			State& SetGoalState(const Pose2d& goal)
 			{
 				m_goalState = CreateStateFromPose(goal);
+				// The goal must not be mistaken for another state of its cell
+				// that the search already knows
+				m_goalState.discretePose.position = Point2i::Constant(std::numeric_limits<int>::max());
 				return m_goalState;
 			}
 
-- 
2.43.0


From 98799177d224bb274d1466c634fa4102f7774f70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:23:04 +0000
Subject: [PATCH 21/51] fix: a failed Hybrid A* search does not return the path
 of an earlier one

---
 planner/src/algo/hybrid_a_star.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/planner/src/algo/hybrid_a_star.cpp b/planner/src/algo/hybrid_a_star.cpp
index 109b2a5..44712d6 100644
--- a/planner/src/algo/hybrid_a_star.cpp
+++ b/planner/src/algo/hybrid_a_star.cpp
@@ -245,6 +245,9 @@ namespace Planner {
 
 		// TODO create stats saving status of each step (graph search + optimization, number of iteration...)
 
+		m_path.clear();
+		m_stats = Stats();
+
 		if (!isInitialized) {
 			PP_ERROR("The algorithm has not been initialized successfully.");
 			return Status::Failure;
-- 
2.43.0


From 64069538466e91bbb859a72787f3b845647a260d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:30:56 +0000
Subject: [PATCH 22/51] fix: a composite path starts where its first path
 starts

---
 planner/src/paths/path_composite.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/planner/src/paths/path_composite.h b/planner/src/paths/path_composite.h
index 82673ad..79cc6b5 100644
--- a/planner/src/paths/path_composite.h
+++ b/planner/src/paths/path_composite.h
@@ -34,6 +34,8 @@ namespace Planner {
 		void PushBack(const Ref<BasePath>& path)
 		{
 			double pathLength = path->GetLength();
+			if (m_paths.empty())
+				this->m_init = path->GetInitialState();
 			m_paths.push_back({ PathInfo(this->m_length, this->m_length + pathLength), path });
 			this->m_final = path->GetFinalState();
 			this->m_length += pathLength;
-- 
2.43.0


From 623fb19cb45733192f52ea1f6e0e18873b5265a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:52:47 +0000
Subject: [PATCH 23/51] fix: sampling several states returns the samples

The samples were written past the end of an empty vector, and the Gaussian
overload called a function that does not exist.
---
 planner/src/state_space/state_space.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/planner/src/state_space/state_space.h b/planner/src/state_space/state_space.h
index cbd0a2e..b64b2d4 100644
--- a/planner/src/state_space/state_space.h
+++ b/planner/src/state_space/state_space.h
@@ -38,7 +38,7 @@ namespace Planner {
 			std::vector<State> states;
 			states.reserve(numSamples);
 			for (unsigned int i = 0; i < numSamples; i++) {
-				states[i] = SampleUniform();
+				states.push_back(SampleUniform());
 			}
 			return states;
 		}
@@ -51,7 +51,7 @@ namespace Planner {
 			std::vector<State> states;
 			states.reserve(numSamples);
 			for (unsigned int i = 0; i < numSamples; i++) {
-				states[i] = SampleGuassian(meanState, stdDev);
+				states.push_back(SampleGaussian(meanState, stdDev));
 			}
 			return states;
 		}
-- 
2.43.0


From 96102318749b6d7a40c44b9b4cbf012933a475e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:52:47 +0000
Subject: [PATCH 24/51] fix: a uniform sample does not exceed its upper bound

lb + (ub - lb) can round to a value above ub.
---
 planner/src/utils/random.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/planner/src/utils/random.h b/planner/src/utils/random.h
index 864fdaf..820f1e2 100644
--- a/planner/src/utils/random.h
+++ b/planner/src/utils/random.h
@@ -2,6 +2,7 @@
 
 #include "core/base.h"
 
+#include <algorithm>
 #include <random>
 
 namespace Planner {
@@ -23,7 +24,8 @@ namespace Planner {
 		static T SampleUniform(T lb, T ub)
 		{
 			auto range = ub - lb;
-			return lb + range * s_uniformDistribution(*s_engine);
+			// Rounding must not push the sample above the upper bound
+			return std::min(lb + range * s_uniformDistribution(*s_engine), ub);
 		}
 
 		/// @brief Sample with a Gaussian distribution of mean @mean and
-- 
2.43.0


From 0013505ae81f80bbd998f67068563d26315f065e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:53:00 +0000
Subject: [PATCH 25/51] fix: sampling works after the entropy source failed
 once

A failing random device left the generator half initialised: later calls took
it for initialised and dereferenced a null engine.
---
 planner/src/utils/random.h | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/planner/src/utils/random.h b/planner/src/utils/random.h
index 820f1e2..c9d8bbc 100644
--- a/planner/src/utils/random.h
+++ b/planner/src/utils/random.h
@@ -12,11 +12,11 @@ namespace Planner {
 	public:
 		static void Init()
 		{
-			if (!s_randomDevice) {
-				s_randomDevice = makeScope<std::random_device>();
-				s_engine = makeScope<std::mt19937_64>((*s_randomDevice)());
+			// The engine is created last: if the entropy source fails, the next call tries again
+			if (!s_engine) {
 				s_uniformDistribution = std::uniform_real_distribution<T>(0.0, std::nextafter(1.0, std::numeric_limits<T>::max()));
 				s_gaussianDistribution = std::normal_distribution<T>(0.0, 1.0);
+				s_engine = makeScope<std::mt19937_64>(std::random_device()());
 			}
 		}
 
@@ -39,7 +39,6 @@ namespace Planner {
 		Random() = default;
 
 	private:
-		inline static Scope<std::random_device> s_randomDevice;
 		inline static Scope<std::mt19937_64> s_engine;
 		inline static std::uniform_real_distribution<T> s_uniformDistribution;
 		inline static std::normal_distribution<T> s_gaussianDistribution;
-- 
2.43.0


From 12552dbd64b89c2143186d4c658d6a32f1878a20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:54:54 +0000
Subject: [PATCH 26/51] fix: planners in different threads do not share a
 random engine

The engine and its distributions were shared, without synchronisation, by every
planner of the process.
---
 planner/src/utils/random.h | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/planner/src/utils/random.h b/planner/src/utils/random.h
index c9d8bbc..5221b93 100644
--- a/planner/src/utils/random.h
+++ b/planner/src/utils/random.h
@@ -7,6 +7,9 @@
 
 namespace Planner {
 
+	/// @brief Random number generator.
+	/// @details Each thread has its own engine, so that planners can run in
+	/// different threads.
 	template <typename T>
 	class Random {
 	public:
@@ -23,6 +26,7 @@ namespace Planner {
 		/// @brief Sample uniformly on the interval [lb, ub].
 		static T SampleUniform(T lb, T ub)
 		{
+			Init();
 			auto range = ub - lb;
 			// Rounding must not push the sample above the upper bound
 			return std::min(lb + range * s_uniformDistribution(*s_engine), ub);
@@ -32,6 +36,7 @@ namespace Planner {
 		/// standard deviation @stdDev.
 		static T SampleGaussian(const T& mean, const T& stdDev)
 		{
+			Init();
 			return mean + stdDev * s_gaussianDistribution(*s_engine);
 		}
 
@@ -39,8 +44,8 @@ namespace Planner {
 		Random() = default;
 
 	private:
-		inline static Scope<std::mt19937_64> s_engine;
-		inline static std::uniform_real_distribution<T> s_uniformDistribution;
-		inline static std::normal_distribution<T> s_gaussianDistribution;
+		inline static thread_local Scope<std::mt19937_64> s_engine;
+		inline static thread_local std::uniform_real_distribution<T> s_uniformDistribution;
+		inline static thread_local std::normal_distribution<T> s_gaussianDistribution;
 	};
 }
-- 
2.43.0


From 69523795528bbd2b5251e1719ac65b2b33fdb906 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:54:54 +0000
Subject: [PATCH 27/51] fix: elapsed time is not affected by changes of the
 system time

---
 planner/src/core/timer.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/planner/src/core/timer.h b/planner/src/core/timer.h
index 62dca11..d47b62e 100644
--- a/planner/src/core/timer.h
+++ b/planner/src/core/timer.h
@@ -12,12 +12,12 @@ namespace Planner {
 
 		void Reset()
 		{
-			m_start = std::chrono::high_resolution_clock::now();
+			m_start = std::chrono::steady_clock::now();
 		}
 
 		float Elapsed()
 		{
-			return std::chrono::duration_cast<std::chrono::nanoseconds>(std::chrono::high_resolution_clock::now() - m_start).count() * 0.001f * 0.001f * 0.001f;
+			return std::chrono::duration_cast<std::chrono::nanoseconds>(std::chrono::steady_clock::now() - m_start).count() * 0.001f * 0.001f * 0.001f;
 		}
 
 		float ElapsedMillis()
@@ -26,7 +26,7 @@ namespace Planner {
 		}
 
 	private:
-		std::chrono::time_point<std::chrono::high_resolution_clock> m_start;
+		std::chrono::time_point<std::chrono::steady_clock> m_start;
 	};
 
 }
-- 
2.43.0


From 9bd1fd8d78318be348107806aa2028021d831004 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:54:54 +0000
Subject: [PATCH 28/51] fix: profiled durations are not affected by changes of
 the system time

---
 planner/src/debug/profiler.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/planner/src/debug/profiler.h b/planner/src/debug/profiler.h
index d9d56a4..6ec9c90 100644
--- a/planner/src/debug/profiler.h
+++ b/planner/src/debug/profiler.h
@@ -69,7 +69,7 @@ namespace Planner {
 		ProfilingTimer(const char* name) :
 			m_name(name), m_stopped(false)
 		{
-			m_startTimepoint = std::chrono::high_resolution_clock::now();
+			m_startTimepoint = std::chrono::steady_clock::now();
 		}
 
 		~ProfilingTimer()
@@ -80,7 +80,7 @@ namespace Planner {
 
 		void Stop()
 		{
-			auto endTimepoint = std::chrono::high_resolution_clock::now();
+			auto endTimepoint = std::chrono::steady_clock::now();
 
 			long long start = std::chrono::time_point_cast<std::chrono::microseconds>(m_startTimepoint).time_since_epoch().count();
 			long long end = std::chrono::time_point_cast<std::chrono::microseconds>(endTimepoint).time_since_epoch().count();
@@ -92,7 +92,7 @@ namespace Planner {
 
 	private:
 		const char* m_name;
-		std::chrono::time_point<std::chrono::high_resolution_clock> m_startTimepoint;
+		std::chrono::time_point<std::chrono::steady_clock> m_startTimepoint;
 		bool m_stopped;
 	};
 
-- 
2.43.0


From d04106499fba5b8fe19af1f42691535bad656e96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:00:18 +0000
Subject: [PATCH 29/51] fix: truncating a Reeds-Shepp path keeps its first
 motions

The motion that was cut short was erased instead of the ones after it.
---
 planner/src/paths/path_reeds_shepp.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/planner/src/paths/path_reeds_shepp.cpp b/planner/src/paths/path_reeds_shepp.cpp
index 1cc32f8..b485257 100644
--- a/planner/src/paths/path_reeds_shepp.cpp
+++ b/planner/src/paths/path_reeds_shepp.cpp
@@ -81,7 +81,7 @@ namespace Planner {
 				if (length >= ratio * totalLength) {
 					m_pathSegment.m_motions[i].length *= motionRatio;
 					for (int ii = i + 1; ii < ReedsShepp::PathSegment::numMotion; ii++) {
-						m_pathSegment.m_motions[i] = ReedsShepp::Motion();
+						m_pathSegment.m_motions[ii] = ReedsShepp::Motion();
 					}
 					break;
 				}
-- 
2.43.0


From 31f0cdc770c500bc8ff6bfe9ce757fa68ba316c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:00:18 +0000
Subject: [PATCH 30/51] fix: the end of a Reeds-Shepp path has the direction of
 its last motion

Rounding could make the end of the path lie beyond its last motion.
---
 planner/src/paths/path_reeds_shepp.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/planner/src/paths/path_reeds_shepp.cpp b/planner/src/paths/path_reeds_shepp.cpp
index b485257..3fe6b43 100644
--- a/planner/src/paths/path_reeds_shepp.cpp
+++ b/planner/src/paths/path_reeds_shepp.cpp
@@ -156,14 +156,17 @@ namespace Planner {
 			return Direction::NoMotion;
 
 		double length = 0;
+		Direction direction = Direction::NoMotion;
 		for (const auto& motion : m_pathSegment.m_motions) {
 			if (!motion.IsValid())
 				break;
 			length += motion.length * m_minTurningRadius;
+			direction = motion.direction;
 			if (ratio * m_length <= length)
-				return motion.direction;
+				break;
 		}
-		return Direction::NoMotion;
+		// The motions may add up to slightly less than the length of the path
+		return direction;
 	}
 
 	double PathReedsShepp::ComputeCost(double directionSwitchingCost, double reverseCostMultiplier, double forwardCostMultiplier) const
-- 
2.43.0


From 98d28aadd3f44eb92604f69e784ba938387f05fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:00:18 +0000
Subject: [PATCH 31/51] fix: a composite path does not ask its parts for ratios
 outside [0, 1]

Next to a boundary between two parts, rounding gave a ratio slightly above one.
---
 planner/src/paths/path_composite.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/planner/src/paths/path_composite.h b/planner/src/paths/path_composite.h
index 79cc6b5..376ea0d 100644
--- a/planner/src/paths/path_composite.h
+++ b/planner/src/paths/path_composite.h
@@ -83,7 +83,7 @@ namespace Planner {
 			double pathLength = it->second->GetLength();
 			if (pathLength == 0.0)
 				return { it, 0.0 };
-			double pathRatio = (length - it->first.initLength) / pathLength;
+			double pathRatio = std::clamp((length - it->first.initLength) / pathLength, 0.0, 1.0);
 			return { it, pathRatio };
 		}
 
-- 
2.43.0


From 68f93b805325af3308ffd0729c68606cb67af380 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:00:18 +0000
Subject: [PATCH 32/51] fix: the direction at the end of a composite path can
 be queried

The end iterator was dereferenced.
---
 planner/src/paths/path_composite.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/planner/src/paths/path_composite.cpp b/planner/src/paths/path_composite.cpp
index a5877a5..5f4f195 100644
--- a/planner/src/paths/path_composite.cpp
+++ b/planner/src/paths/path_composite.cpp
@@ -29,7 +29,12 @@ namespace Planner {
 
 	Direction PathSE2CompositeNonHolonomic::GetDirection(double ratio) const
 	{
+		if (m_paths.empty())
+			return Direction::NoMotion;
+
 		auto [it, pathRatio] = FindSegment(ratio);
+		if (it == m_paths.end())
+			it--;
 		return it->second->GetDirection(pathRatio);
 	}
 }
-- 
2.43.0


From 6c80ae828386fe5ae1dde9ec6eebb1bf60d79520 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:00:18 +0000
Subject: [PATCH 33/51] fix: a truncated composite path can be extended

The part that was cut short kept its old extent and hid the beginning of the
parts appended after it.
---
 planner/src/paths/path_composite.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/planner/src/paths/path_composite.h b/planner/src/paths/path_composite.h
index 376ea0d..56a1e2d 100644
--- a/planner/src/paths/path_composite.h
+++ b/planner/src/paths/path_composite.h
@@ -67,6 +67,7 @@ namespace Planner {
 			this->m_final = it->second->GetFinalState();
 			this->m_length = it->first.initLength + it->second->GetLength();
 			m_paths.erase(std::next(it), m_paths.end());
+			m_paths.back().first.finalLength = this->m_length;
 		}
 
 	protected:
-- 
2.43.0


From 0b5c98b52531b579e904d66442493f9430d4f015 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:03:14 +0000
Subject: [PATCH 34/51] fix: an empty part of a composite path is not a change
 of direction

---
 planner/src/paths/path_composite.cpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/planner/src/paths/path_composite.cpp b/planner/src/paths/path_composite.cpp
index 5f4f195..83531f6 100644
--- a/planner/src/paths/path_composite.cpp
+++ b/planner/src/paths/path_composite.cpp
@@ -9,10 +9,14 @@ namespace Planner {
 			return ratios;
 
 		double length = 0.0;
-		Direction prevDirection = m_paths[0].second->GetDirection(0.0);
+		Direction prevDirection = Direction::NoMotion;
 		for (auto& path : m_paths) {
+			// Nothing is driven on an empty path
+			if (path.second->GetLength() == 0.0)
+				continue;
+
 			// Check if the path starts with same direction as the previous ends
-			if (path.second->GetDirection(0.0) != prevDirection)
+			if (length > 0.0 && path.second->GetDirection(0.0) != prevDirection)
 				ratios.insert(length / this->m_length);
 
 			// Check for cusp point in the path
-- 
2.43.0


From 0e80bea8d81494d85ca8d2d4fd53f30167698d76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:15:01 +0000
Subject: [PATCH 35/51] fix: failing to record a profiled scope does not end
 the program

---
 planner/src/debug/profiler.h | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/planner/src/debug/profiler.h b/planner/src/debug/profiler.h
index 6ec9c90..acef853 100644
--- a/planner/src/debug/profiler.h
+++ b/planner/src/debug/profiler.h
@@ -74,8 +74,13 @@ namespace Planner {
 
 		~ProfilingTimer()
 		{
-			if (!m_stopped)
-				Stop();
+			if (!m_stopped) {
+				// Failing to record the scope must not end the program.
+				try {
+					Stop();
+				} catch (...) {
+				}
+			}
 		}
 
 		void Stop()
-- 
2.43.0


From c066c9afc40b8fa2e445189e81150c1543670e9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:15:01 +0000
Subject: [PATCH 36/51] fix: a partially formatted event is not written to the
 trace

---
 planner/src/debug/profiler.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/planner/src/debug/profiler.cpp b/planner/src/debug/profiler.cpp
index 2cf4992..d0c01ae 100644
--- a/planner/src/debug/profiler.cpp
+++ b/planner/src/debug/profiler.cpp
@@ -47,6 +47,10 @@ namespace Planner {
 		json << "\"tid\":" << result.threadID << ",";
 		json << "\"ts\":" << result.start;
 		json << "}";
+		if (!json) {
+			// A partial event would make the whole file unreadable.
+			return;
+		}
 
 		std::lock_guard lock(m_mutex);
 		if (m_currentSession) {
-- 
2.43.0


From 82f707dda065e2f3193b55183307f51a564a4c91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:11:36 +0000
Subject: [PATCH 37/51] fix: the thread-safe singleton publishes its instance
 with an atomic pointer

---
 planner/src/utils/singleton.h | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/planner/src/utils/singleton.h b/planner/src/utils/singleton.h
index 2b8b6ae..63cbcf5 100644
--- a/planner/src/utils/singleton.h
+++ b/planner/src/utils/singleton.h
@@ -1,5 +1,6 @@
 #pragma once
 
+#include <atomic>
 #include <memory>
 #include <mutex>
 
@@ -97,7 +98,8 @@ namespace Planner {
 		static T& Get()
 		{
 			// Prevents the lock-step required each time the instance is requested
-			if (!m_instance_ptr) {
+			T* instance = m_published.load(std::memory_order_acquire);
+			if (!instance) {
 				// Lock is required here though, to prevent multiple threads
 				// initialising multiple instances of the class when it turns out it
 				// has not been initialised yet
@@ -106,9 +108,11 @@ namespace Planner {
 				// instance in the time it took to acquire a lock.
 				if (!m_instance_ptr) {
 					m_instance_ptr = std::unique_ptr<T>(new T());
+					m_published.store(m_instance_ptr.get(), std::memory_order_release);
 				}
+				instance = m_instance_ptr.get();
 			}
-			return *m_instance_ptr;
+			return *instance;
 		}
 
 		/// @brief Provide global access to release/delete the instance.
@@ -116,6 +120,7 @@ namespace Planner {
 		{
 			std::lock_guard<std::mutex> lock(m_constructed);
 			if (m_instance_ptr) {
+				m_published.store(nullptr, std::memory_order_release);
 				m_instance_ptr.reset();
 			}
 		}
@@ -125,6 +130,8 @@ namespace Planner {
 		~SingletonThreadSafe() = default;
 
 		static std::unique_ptr<T> m_instance_ptr;
+		/// The instance, once it is constructed, for readers without the lock.
+		static std::atomic<T*> m_published;
 		static std::mutex m_constructed;
 
 	private:
@@ -136,4 +143,6 @@ namespace Planner {
 	std::mutex SingletonThreadSafe<T>::m_constructed;
 	template <class T>
 	std::unique_ptr<T> SingletonThreadSafe<T>::m_instance_ptr = nullptr;
+	template <class T>
+	std::atomic<T*> SingletonThreadSafe<T>::m_published { nullptr };
 }
-- 
2.43.0


From 1a299ea3f342a987a032c4317a1b8294f75da993 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:22:13 +0000
Subject: [PATCH 38/51] fix: the original path term of the smoother pulls
 towards the path

---
 planner/src/algo/smoother.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/planner/src/algo/smoother.cpp b/planner/src/algo/smoother.cpp
index 877b74a..7db81fc 100644
--- a/planner/src/algo/smoother.cpp
+++ b/planner/src/algo/smoother.cpp
@@ -105,7 +105,7 @@ namespace Planner {
 				const Point2d& curr = m_currentPath[i].position;
 
 				// Original path term
-				gradients[i] += m_param.pathWeight * (path[i].position - curr);
+				gradients[i] += m_param.pathWeight * (curr - path[i].position);
 
 				if (m_map->IsInsideMap(curr)) {
 					// Collision term
-- 
2.43.0


From fbbba917fc1d86ccf0d66d0ea8b0984eadf9f06f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:22:13 +0000
Subject: [PATCH 39/51] fix: the smoother does not avoid an obstacle that does
 not exist

---
 planner/src/algo/smoother.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/planner/src/algo/smoother.cpp b/planner/src/algo/smoother.cpp
index 7db81fc..426bf1f 100644
--- a/planner/src/algo/smoother.cpp
+++ b/planner/src/algo/smoother.cpp
@@ -107,7 +107,7 @@ namespace Planner {
 				// Original path term
 				gradients[i] += m_param.pathWeight * (curr - path[i].position);
 
-				if (m_map->IsInsideMap(curr)) {
+				if (m_map->IsInsideMap(curr) && m_gvd->GetNearestObstacleCell(m_map->WorldPositionToGridCell(curr)).IsValid()) {
 					// Collision term
 					Point2d dirToClosestObs = curr - m_map->GridCellToWorldPosition(m_gvd->GetNearestObstacleCell(m_map->WorldPositionToGridCell(curr)));
 					float obstDist = dirToClosestObs.norm();
-- 
2.43.0


From 070a32ed23e0be15a7607dca4927d65c5da209ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:22:13 +0000
Subject: [PATCH 40/51] fix: the smoother does not follow a Voronoi edge that
 does not exist

---
 planner/src/algo/smoother.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/planner/src/algo/smoother.cpp b/planner/src/algo/smoother.cpp
index 426bf1f..49ed930 100644
--- a/planner/src/algo/smoother.cpp
+++ b/planner/src/algo/smoother.cpp
@@ -117,7 +117,7 @@ namespace Planner {
 					// Voronoi term
 					const auto& alpha = m_gvd->alpha;
 					const auto& dMax = m_gvd->dMax;
-					if (obstDist < dMax && m_param.voronoiWeight > 0.0f) {
+					if (obstDist < dMax && m_param.voronoiWeight > 0.0f && m_gvd->GetNearestVoronoiEdgeCell(m_map->WorldPositionToGridCell(curr)).IsValid()) {
 						Point2d dirToClosestVoroEdge = curr - m_map->GridCellToWorldPosition(m_gvd->GetNearestVoronoiEdgeCell(m_map->WorldPositionToGridCell(curr)));
 						float voroDist = dirToClosestVoroEdge.norm();
 
-- 
2.43.0


From 99799e454abef3d11ecc7945576bd23b95a5749d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:07:31 +0000
Subject: [PATCH 41/51] fix: the Python name of is_occupied can be used

---
 interfaces/python/src/pyplanning.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/interfaces/python/src/pyplanning.cpp b/interfaces/python/src/pyplanning.cpp
index dc43dcb..12ccebf 100644
--- a/interfaces/python/src/pyplanning.cpp
+++ b/interfaces/python/src/pyplanning.cpp
@@ -348,7 +348,7 @@ PYBIND11_MODULE(pyplanning, m)
 		.def("update", &OccupancyMap::Update)
 		.def("set_position", &OccupancyMap::SetPosition)
 		.def("get_position", &OccupancyMap::GetPosition)
-		.def("is_occupied)", &OccupancyMap::IsOccupied)
+		.def("is_occupied", &OccupancyMap::IsOccupied)
 		.def<int (OccupancyMap::*)(const GridCellPosition&)>("get_occupancy_value", &OccupancyMap::GetOccupancyValue)
 		.def<int (OccupancyMap::*)(int, int)>("get_occupancy_value", &OccupancyMap::GetOccupancyValue)
 		.def<Ref<GVD::ObstacleDistanceMap>& (OccupancyMap::*)()>("get_obstacle_map", &OccupancyMap::GetObstacleDistanceMap)
-- 
2.43.0


From ec24cc3b51f59834d3880b810762d11826cb73ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:07:31 +0000
Subject: [PATCH 42/51] fix: points can be added and subtracted from Python

---
 interfaces/python/src/pyplanning.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/interfaces/python/src/pyplanning.cpp b/interfaces/python/src/pyplanning.cpp
index 12ccebf..e6cfeb9 100644
--- a/interfaces/python/src/pyplanning.cpp
+++ b/interfaces/python/src/pyplanning.cpp
@@ -209,8 +209,8 @@ PYBIND11_MODULE(pyplanning, m)
 		.def(init<double, double>())
 		.def<double& (Point2d::*)()>("x", &Point2d::x)
 		.def<double& (Point2d::*)()>("y", &Point2d::y)
-		.def(self + self)
-		.def(self - self)
+		.def("__add__", [](const Point2d& a, const Point2d& b) -> Point2d { return a + b; }, is_operator())
+		.def("__sub__", [](const Point2d& a, const Point2d& b) -> Point2d { return a - b; }, is_operator())
 		.def(self == self)
 		.def(self != self);
 
-- 
2.43.0


From ea6ee018dd62a561e76dceb9fda7385b02ed9a85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:07:31 +0000
Subject: [PATCH 43/51] fix: adding no obstacle to a map is refused

---
 planner/src/state_validator/obstacle_list_occupancy_map.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/planner/src/state_validator/obstacle_list_occupancy_map.cpp b/planner/src/state_validator/obstacle_list_occupancy_map.cpp
index 5668b75..1c08214 100644
--- a/planner/src/state_validator/obstacle_list_occupancy_map.cpp
+++ b/planner/src/state_validator/obstacle_list_occupancy_map.cpp
@@ -31,7 +31,7 @@ namespace Planner {
 		if (!m_occupancyMatrix)
 			throw std::runtime_error("The size of the occupancy matrix has not been initialized");
 
-		if (m_obstacles.find(obstacle) != m_obstacles.end())
+		if (!obstacle || m_obstacles.find(obstacle) != m_obstacles.end())
 			return false;
 
 		// Compute the footprint first: nothing is modified if it throws
-- 
2.43.0


From 74d99dc02464c2483ee70008616b3282e7dd2c00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:07:31 +0000
Subject: [PATCH 44/51] fix: Python objects used by a planner live as long as
 it does

---
 interfaces/python/src/pyplanning.cpp | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/interfaces/python/src/pyplanning.cpp b/interfaces/python/src/pyplanning.cpp
index e6cfeb9..5183235 100644
--- a/interfaces/python/src/pyplanning.cpp
+++ b/interfaces/python/src/pyplanning.cpp
@@ -110,7 +110,7 @@ PYBIND11_MODULE(pyplanning, m)
 	class_<HybridAStar, PathPlannerSE2Base>(m, "HybridAStar")
 		.def(init<>())
 		.def(init<const HybridAStar::SearchParameters&>())
-		.def("initialize", &HybridAStar::Initialize)
+		.def("initialize", &HybridAStar::Initialize, keep_alive<1, 2>())
 		.def_readwrite("path_interpolation", &HybridAStar::pathInterpolation)
 		.def("get_stats", &HybridAStar::GetStats)
 		.def("get_graph_search_explored_path_set", &HybridAStar::GetGraphSearchExploredPathSet)
@@ -151,7 +151,7 @@ PYBIND11_MODULE(pyplanning, m)
 		.def(init<>());
 
 	class_<AStarStatePropagatorFcnN2, Ref<AStarStatePropagatorFcnN2>, AStarStatePropagatorN2>(m, "AStarStatePropagatorFcnN2")
-		.def(init<const Ref<OccupancyMap>&, const std::function<double(const GridCellPosition&, const GridCellPosition&)>&>());
+		.def(init<const Ref<OccupancyMap>&, const std::function<double(const GridCellPosition&, const GridCellPosition&)>&>(), keep_alive<1, 2>());
 
 	class_<PathPlannerN2Base, PathPlannerN2BaseWrapper>(m, "PathPlannerN2Base")
 		.def(init<>())
@@ -168,7 +168,7 @@ PYBIND11_MODULE(pyplanning, m)
 
 	class_<PyAStarN2, PathPlannerN2Base>(m, "AStarN2")
 		.def(init<>())
-		.def("initialize", &AStarN2::Initialize)
+		.def("initialize", &AStarN2::Initialize, keep_alive<1, 2>(), keep_alive<1, 3>())
 		.def("get_explored_states", &PyAStarN2::GetExploredStates)
 		.def("get_optimal_cost", &AStarN2::GetOptimalCost);
 
@@ -192,7 +192,7 @@ PYBIND11_MODULE(pyplanning, m)
 	class_<PyBidirectionalAStarN2, PathPlannerN2Base>(m, "BidirectionalAStarN2")
 		.def(init<>())
 		.def_static("get_average_heuristic_pair", &BidirectionalAStarN2::GetAverageHeuristicPair)
-		.def("initialize", &BidirectionalAStarN2::Initialize)
+		.def("initialize", &BidirectionalAStarN2::Initialize, keep_alive<1, 2>(), keep_alive<1, 3>(), keep_alive<1, 4>(), keep_alive<1, 5>())
 		.def("get_explored_states", &PyBidirectionalAStarN2::GetExploredStates)
 		.def("get_optimal_cost", &BidirectionalAStarN2::GetOptimalCost);
 
@@ -415,13 +415,13 @@ PYBIND11_MODULE(pyplanning, m)
 		.def(init<const Ref<StateSpaceSE2>&>());
 
 	class_<StateValidatorOccupancyMap, Ref<StateValidatorOccupancyMap>, StateValidatorSE2Base>(m, "StateValidatorOccupancyMap")
-		.def(init<const Ref<StateSpaceSE2>&, const Ref<OccupancyMap>&>())
+		.def(init<const Ref<StateSpaceSE2>&, const Ref<OccupancyMap>&>(), keep_alive<1, 3>())
 		.def("get_occupancy_map", &StateValidatorOccupancyMap::GetOccupancyMap)
 		.def_readwrite("min_path_interpolation_distance", &StateValidatorOccupancyMap::minPathInterpolationDistance)
 		.def_readwrite("min_safe_radius", &StateValidatorOccupancyMap::minSafeRadius);
 
 	class_<GVD>(m, "GVD")
-		.def(init<const Ref<OccupancyMap>&>())
+		.def(init<const Ref<OccupancyMap>&>(), keep_alive<1, 2>())
 		.def("update", &GVD::Update)
 		.def<float (GVD::*)(int, int) const>("get_distance_to_nearest_obstacle", &GVD::GetDistanceToNearestObstacle)
 		.def<float (GVD::*)(const GridCellPosition&) const>("get_distance_to_nearest_obstacle", &GVD::GetDistanceToNearestObstacle)
-- 
2.43.0


From ecba0919db835dfa0c9d20ca152e605dbbfcac12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:07:31 +0000
Subject: [PATCH 45/51] fix: the non-holonomic heuristic does not swap forward
 and reverse costs

---
 planner/src/algo/heuristics.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/planner/src/algo/heuristics.cpp b/planner/src/algo/heuristics.cpp
index 90ec31f..87d6197 100644
--- a/planner/src/algo/heuristics.cpp
+++ b/planner/src/algo/heuristics.cpp
@@ -61,12 +61,13 @@ namespace Planner {
 		const unsigned int& numSpatialY = heuristic->numSpatialY;
 		const unsigned int& numAngular = heuristic->numAngular;
 
-		const Pose2d goal(0.0, 0.0, 0.0);
+		// The table is indexed by the pose of the goal relative to the state
+		const Pose2d start(0.0, 0.0, 0.0);
 		for (int i = 0; i < numSpatialX; i++) {
 			for (int j = 0; j < numSpatialY; j++) {
 				for (int k = 0; k < numAngular; k++) {
 					Pose2d pose(i * spatialResolution - offsetX, j * spatialResolution - offsetY, k * angularResolution);
-					auto path = ReedsShepp::Solver::GetOptimalPath(pose, goal, minTurningRadius, reverseCostMultiplier, forwardCostMultiplier, directionSwitchingCost);
+					auto path = ReedsShepp::Solver::GetOptimalPath(start, pose, minTurningRadius, reverseCostMultiplier, forwardCostMultiplier, directionSwitchingCost);
 					values[i][j][k] = path.ComputeCost(minTurningRadius, reverseCostMultiplier, forwardCostMultiplier, directionSwitchingCost);
 				}
 			}
-- 
2.43.0


From 4f69a2d6934987fc068f27aeed402a8fd64413c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:07:31 +0000
Subject: [PATCH 46/51] fix: rounding errors do not hide the shortest
 Reeds-Shepp path

---
 planner/src/geometry/reeds_shepp.cpp | 71 +++++++++++++++++-----------
 1 file changed, 43 insertions(+), 28 deletions(-)

diff --git a/planner/src/geometry/reeds_shepp.cpp b/planner/src/geometry/reeds_shepp.cpp
index ddf9491..292ec1e 100644
--- a/planner/src/geometry/reeds_shepp.cpp
+++ b/planner/src/geometry/reeds_shepp.cpp
@@ -13,9 +13,24 @@ namespace Planner {
 				return theta < 0 || theta > M_PI;
 			}
 
+			static constexpr double angleTolerance = 1e-9;
+
 			static double WrapAngle(double theta)
 			{
-				return Maths::Modulo(theta + M_PI, 2 * M_PI) - M_PI;
+				theta = Maths::Modulo(theta + M_PI, 2 * M_PI) - M_PI;
+				// Rounding errors must not turn 0 or pi into a negative angle
+				if (theta < 0 && theta > -angleTolerance)
+					return 0;
+				if (theta < -M_PI + angleTolerance)
+					return M_PI;
+				return theta;
+			}
+
+			static double WrapAnglePositive(double theta)
+			{
+				theta = Maths::Modulo(theta, 2 * M_PI);
+				// Rounding errors must not turn 0 into a full turn
+				return theta > 2 * M_PI - angleTolerance ? 0 : theta;
 			}
 
 			static double LfSfLf(const Pose2d& goal, double& t, double& u, double& v)
@@ -25,7 +40,7 @@ namespace Planner {
 				double y = goal.y() - 1 + cos(goal.theta);
 
 				u = sqrt(x * x + y * y);
-				t = atan2(y, x);
+				t = WrapAngle(atan2(y, x));
 				v = WrapAngle(goal.theta - t);
 
 				if (IsAngleInvalid(t) || IsAngleInvalid(v))
@@ -71,9 +86,9 @@ namespace Planner {
 
 				double phi = atan2(eta, xi);
 				double alpha = acos(u1 / 4.0);
-				t = Maths::Modulo(M_PI_2 + alpha + phi, 2 * M_PI);
-				u = Maths::Modulo(M_PI - 2 * alpha, 2 * M_PI);
-				v = Maths::Modulo(goal.theta - t - u, 2 * M_PI);
+				t = WrapAnglePositive(M_PI_2 + alpha + phi);
+				u = WrapAnglePositive(M_PI - 2 * alpha);
+				v = WrapAnglePositive(goal.theta - t - u);
 
 				if (IsAngleInvalid(t) || IsAngleInvalid(u) || IsAngleInvalid(v))
 					return std::numeric_limits<double>::infinity();
@@ -95,9 +110,9 @@ namespace Planner {
 
 				double phi = atan2(eta, xi);
 				double alpha = acos(u1 / 4.0);
-				t = Maths::Modulo(M_PI_2 + alpha + phi, 2 * M_PI);
-				u = Maths::Modulo(M_PI - 2 * alpha, 2 * M_PI);
-				v = Maths::Modulo(t + u - goal.theta, 2 * M_PI);
+				t = WrapAnglePositive(M_PI_2 + alpha + phi);
+				u = WrapAnglePositive(M_PI - 2 * alpha);
+				v = WrapAnglePositive(t + u - goal.theta);
 
 				return t + u + v;
 			}
@@ -118,8 +133,8 @@ namespace Planner {
 				u = acos((8 - u1 * u1) / 8.0);
 				double va = sin(u);
 				double alpha = asin(2 * va / u1);
-				t = Maths::Modulo(M_PI_2 - alpha + phi, 2 * M_PI);
-				v = Maths::Modulo(t - u - goal.theta, 2 * M_PI);
+				t = WrapAnglePositive(M_PI_2 - alpha + phi);
+				v = WrapAnglePositive(t - u - goal.theta);
 
 				return t + u + v;
 			}
@@ -140,14 +155,14 @@ namespace Planner {
 
 				if (u1 > 2) {
 					double alpha = acos(u1 / 4 - 0.5);
-					t = Maths::Modulo(M_PI_2 + phi - alpha, 2 * M_PI);
-					u = Maths::Modulo(M_PI - alpha, 2 * M_PI);
-					v = Maths::Modulo(goal.theta - t + 2 * u, 2 * M_PI);
+					t = WrapAnglePositive(M_PI_2 + phi - alpha);
+					u = WrapAnglePositive(M_PI - alpha);
+					v = WrapAnglePositive(goal.theta - t + 2 * u);
 				} else {
 					double alpha = acos(u1 / 4 + 0.5);
-					t = Maths::Modulo(M_PI_2 + phi + alpha, 2 * M_PI);
-					u = Maths::Modulo(alpha, 2 * M_PI);
-					v = Maths::Modulo(goal.theta - t + 2 * u, 2 * M_PI);
+					t = WrapAnglePositive(M_PI_2 + phi + alpha);
+					u = WrapAnglePositive(alpha);
+					v = WrapAnglePositive(goal.theta - t + 2 * u);
 				}
 
 				return t + u + u + v;
@@ -173,8 +188,8 @@ namespace Planner {
 				u = acos(va1);
 				double va2 = sin(u);
 				double alpha = asin(2 * va2 / u1);
-				t = Maths::Modulo(M_PI_2 + phi + alpha, 2 * M_PI);
-				v = Maths::Modulo(t - goal.theta, 2 * M_PI);
+				t = WrapAnglePositive(M_PI_2 + phi + alpha);
+				v = WrapAnglePositive(t - goal.theta);
 
 				return t + u + u + v;
 			}
@@ -198,8 +213,8 @@ namespace Planner {
 					return std::numeric_limits<double>::infinity();
 
 				double alpha = atan2(2, u + 2);
-				t = Maths::Modulo(M_PI_2 + phi + alpha, 2 * M_PI);
-				v = Maths::Modulo(t + M_PI_2 - goal.theta, 2 * M_PI);
+				t = WrapAnglePositive(M_PI_2 + phi + alpha);
+				v = WrapAnglePositive(t + M_PI_2 - goal.theta);
 
 				return t + M_PI_2 + u + v;
 			}
@@ -218,9 +233,9 @@ namespace Planner {
 
 				double phi = atan2(eta, xi);
 
-				t = Maths::Modulo(M_PI_2 + phi, 2 * M_PI);
+				t = WrapAnglePositive(M_PI_2 + phi);
 				u = u1 - 2;
-				v = Maths::Modulo(goal.theta - t - M_PI_2, 2 * M_PI);
+				v = WrapAnglePositive(goal.theta - t - M_PI_2);
 
 				return t + M_PI_2 + u + v;
 			}
@@ -244,8 +259,8 @@ namespace Planner {
 					return std::numeric_limits<double>::infinity();
 
 				double alpha = atan2(u + 2, 2);
-				t = Maths::Modulo(M_PI_2 + phi - alpha, 2 * M_PI);
-				v = Maths::Modulo(t - M_PI_2 - goal.theta, 2 * M_PI);
+				t = WrapAnglePositive(M_PI_2 + phi - alpha);
+				v = WrapAnglePositive(t - M_PI_2 - goal.theta);
 
 				return t + u + M_PI_2 + v;
 			}
@@ -264,9 +279,9 @@ namespace Planner {
 
 				double phi = atan2(eta, xi);
 
-				t = Maths::Modulo(phi, 2 * M_PI);
+				t = WrapAnglePositive(phi);
 				u = u1 - 2;
-				v = Maths::Modulo(-t - M_PI_2 + goal.theta, 2 * M_PI);
+				v = WrapAnglePositive(-t - M_PI_2 + goal.theta);
 
 				return t + u + M_PI_2 + v;
 			}
@@ -290,8 +305,8 @@ namespace Planner {
 					return std::numeric_limits<double>::infinity();
 
 				double alpha = atan2(2, u + 4);
-				t = Maths::Modulo(M_PI_2 + phi + alpha, 2 * M_PI);
-				v = Maths::Modulo(t - goal.theta, 2 * M_PI);
+				t = WrapAnglePositive(M_PI_2 + phi + alpha);
+				v = WrapAnglePositive(t - goal.theta);
 
 				return t + u + v + M_PI;
 			}
-- 
2.43.0


From 6432b6b8f7018a10cc64d77983b1318cc00b004e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:07:31 +0000
Subject: [PATCH 47/51] fix: the shortest Reeds-Shepp distance is given for the
 turning radius

---
 planner/src/geometry/reeds_shepp.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/planner/src/geometry/reeds_shepp.cpp b/planner/src/geometry/reeds_shepp.cpp
index 292ec1e..ddd8232 100644
--- a/planner/src/geometry/reeds_shepp.cpp
+++ b/planner/src/geometry/reeds_shepp.cpp
@@ -648,7 +648,7 @@ namespace Planner {
 			if (out)
 				*out = { t, u, v };
 
-			return smallestLength;
+			return smallestLength * minTurningRadius;
 		}
 
 		PathSegment Solver::GetShortestPath(const Pose2d& start, const Pose2d& goal, double minTurningRadius, PathWords* word)
-- 
2.43.0


From 55a5d1ee8a32980a467a0cdc49ba4aed337cf0a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:45:09 +0000
Subject: [PATCH 48/51] fix: accumulate the Voronoi field along a path in its
 cost

GetVoronoiCost integrated the field over the path but kept only the last
sample, so the cost of a manoeuvre ignored the field everywhere but at
its end.
---
 planner/src/algo/hybrid_a_star.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/planner/src/algo/hybrid_a_star.cpp b/planner/src/algo/hybrid_a_star.cpp
index 44712d6..5b1d400 100644
--- a/planner/src/algo/hybrid_a_star.cpp
+++ b/planner/src/algo/hybrid_a_star.cpp
@@ -103,7 +103,7 @@ namespace Planner {
 			// The path may leave the map between the states checked by the validator
 			if (!m_occupancyMap->IsInsideMap(cell))
 				continue;
-			voronoiCost = m_gvd->GetPathCost(cell);
+			voronoiCost += m_gvd->GetPathCost(cell);
 		}
 
 		voronoiCost *= interpLength;
-- 
2.43.0


From e15169b7bec1a8bcbc86741f0f32a8888f7cab3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:46:25 +0000
Subject: [PATCH 49/51] fix: hand the ratio to the path validation by address

The overload of StateValidator::IsPathValid that reports the last valid
state passed the ratio itself where a pointer is expected, so it did not
compile when it was used.
---
 planner/src/state_validator/state_validator.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/planner/src/state_validator/state_validator.h b/planner/src/state_validator/state_validator.h
index f25bcf4..6433001 100644
--- a/planner/src/state_validator/state_validator.h
+++ b/planner/src/state_validator/state_validator.h
@@ -30,7 +30,7 @@ namespace Planner {
 		bool IsPathValid(const Path<State>& path, State* last)
 		{
 			float ratio;
-			bool validated = IsPathValid(path, ratio);
+			bool validated = IsPathValid(path, &ratio);
 			if (last)
 				*last = path.Interpolate(ratio);
 			return validated;
-- 
2.43.0


From dd2fbaee2a06110f75c4c0f1920398eb7b35d6de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:52:36 +0000
Subject: [PATCH 50/51] fix: validate paths with the path method of a Python
 validator

The override of IsPathValid looked up IsStateValid in the Python class, so
a validator defined in Python got paths where it expects states.
---
 interfaces/python/src/pyplanning.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/interfaces/python/src/pyplanning.cpp b/interfaces/python/src/pyplanning.cpp
index 5183235..7351bca 100644
--- a/interfaces/python/src/pyplanning.cpp
+++ b/interfaces/python/src/pyplanning.cpp
@@ -402,7 +402,7 @@ PYBIND11_MODULE(pyplanning, m)
 	struct StateValidatorSE2BaseWrapper : StateValidatorSE2Base {
 		using StateValidatorSE2Base::StateValidatorSE2Base;
 		virtual bool IsStateValid(const Pose2d& a) override { PYBIND11_OVERRIDE_PURE(bool, StateValidatorSE2Base, IsStateValid, a); }
-		virtual bool IsPathValid(const Path<Pose2d>& a, float* b) override { PYBIND11_OVERRIDE_PURE(bool, StateValidatorSE2Base, IsStateValid, a, b); }
+		virtual bool IsPathValid(const Path<Pose2d>& a, float* b) override { PYBIND11_OVERRIDE_PURE(bool, StateValidatorSE2Base, IsPathValid, a, b); }
 	};
 
 	class_<StateValidatorSE2Base, Ref<StateValidatorSE2Base>, StateValidatorSE2BaseWrapper>(m, "StateValidatorSE2Base")
-- 
2.43.0


From d3b3d622ef3d273a460dde5265112424a1427cab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:16:57 +0000
Subject: [PATCH 51/51] fix: keep the cheaper node of a state in an A* tree
 search

---
 planner/src/algo/a_star.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/planner/src/algo/a_star.h b/planner/src/algo/a_star.h
index 7ff00bd..f6decca 100644
--- a/planner/src/algo/a_star.h
+++ b/planner/src/algo/a_star.h
@@ -402,6 +402,9 @@ namespace Planner {
 						// current path, and if so replace it by child
 						ProcessPossibleShortcut(*inFrontier, std::move(childScope), node);
 					}
+				} else if (Node* const* inFrontier = m_frontier.Find(child)) {
+					// The frontier holds each state once: keep the cheaper node
+					ProcessPossibleShortcut(*inFrontier, std::move(childScope), node);
 				} else {
 					// Add child to frontier and to the tree
 					m_frontier.Push(child);
-- 
2.43.0

