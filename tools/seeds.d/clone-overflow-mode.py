prop = "P14"
needs = "a copy of workspace data that does not adjust on overflow, with more than 255 entries in one voxel"
breaks = "the copy halves all entries when a voxel overflows instead of saturating like the original"
edits = [("VirtualRobot/Workspace/WorkspaceDataArray.cpp", "this->adjustOnOverflow = other->adjustOnOverflow;", "this->adjustOnOverflow = other->voxelFilledCount > 0;")]
demo = r"""
#include <VirtualRobot/Robot.h>
#include <VirtualRobot/XML/RobotIO.h>
#include <VirtualRobot/RobotNodeSet.h>
#include <VirtualRobot/Workspace/Reachability.h>
#include <iostream>
using namespace VirtualRobot;
int main()
{
    RobotPtr r = RobotIO::createRobotFromString("<Robot Type='r' RootNode='w'><RobotNode name='w'><Child name='a'/></RobotNode><RobotNode name='a'><Joint type='revolute'/><Child name='b'/></RobotNode><RobotNode name='b'><Transform><Translation x='100' y='0' z='0'/></Transform></RobotNode></Robot>");
    std::vector<std::string> n(1, "a");
    RobotNodeSetPtr ns = RobotNodeSet::createRobotNodeSet(r, "ns", n, "w", "b");
    float lo[6] = {-200, -200, -200, -3.2f, -3.2f, -3.2f}, hi[6] = {200, 200, 200, 6.8f, 6.8f, 6.8f};
    WorkspaceRepresentationPtr a(new Reachability(r));
    a->initialize(ns, 50, 1.0f, lo, hi, SceneObjectSetPtr(), SceneObjectSetPtr(), RobotNodePtr(), RobotNodePtr(), false);
    r->getRobotNode("a")->setJointValue(1.5f);
    Eigen::Matrix4f p = r->getRobotNode("b")->getGlobalPose();
    for (int i = 0; i < 100; i++)
        a->addCurrentTCPPose();
    WorkspaceRepresentationPtr b = a->clone();
    r->getRobotNode("a")->setJointValue(0.0f);
    for (int i = 0; i < 300; i++)
    {
        a->addCurrentTCPPose();
        b->addCurrentTCPPose();
    }
    std::cout << (int)a->getEntry(p) << " " << (int)b->getEntry(p) << std::endl;
    return a->getEntry(p) == 100 && b->getEntry(p) == 100 ? 0 : 1;
}
"""
